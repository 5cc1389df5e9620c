pub struct Entry { pub fmt: FileFormat, pub id: &'static str, pub name: &'static str, pub short: Option<&'static str>, pub media: &'static str, pub ext: &'static str, pub kind: Kind, pub kind_id: &'static str }
const fn e(fmt: FileFormat, id: &'static str, name: &'static str, short: Option<&'static str>, media: &'static str, ext: &'static str, kind: Kind, kind_id: &'static str) -> Entry { Entry { fmt, id, name, short, media, ext, kind, kind_id } }
pub const CATALOG: &[Entry] = &[
    e(Abiword, "Abiword", "AbiWord", Some("ABW"), "application/x-abiword", "abw", Kind::Document, "Document"),
    e(AbiwordTemplate, "AbiwordTemplate", "AbiWord Template", Some("AWT"), "application/x-abiword-template", "awt", Kind::Document, "Document"),
    e(Ace, "Ace", "ACE", None, "application/x-ace-compressed", "ace", Kind::Archive, "Archive"),
    e(ActionsMediaVideo, "ActionsMediaVideo", "Actions Media Video", Some("AMV"), "video/x-amv", "amv", Kind::Video, "Video"),
    e(Activemime, "Activemime", "ActiveMime", Some("MSO"), "application/x-mso", "mso", Kind::Other, "Other"),
    e(AdaptableScalableTextureCompression, "AdaptableScalableTextureCompression", "Adaptable Scalable Texture Compression", Some("ASTC"), "image/x-astc", "astc", Kind::Image, "Image"),
    e(AdaptiveMultiRate, "AdaptiveMultiRate", "Adaptive Multi-Rate", Some("AMR"), "audio/amr", "amr", Kind::Audio, "Audio"),
    e(AdditiveManufacturingFormat, "AdditiveManufacturingFormat", "Additive Manufacturing Format", Some("AMF"), "application/x-amf", "amf", Kind::Model, "Model"),
    e(AdobeIllustratorArtwork, "AdobeIllustratorArtwork", "Adobe Illustrator Artwork", Some("AI"), "application/vnd.adobe.illustrator", "ai", Kind::Image, "Image"),
    e(AdobeIndesignDocument, "AdobeIndesignDocument", "Adobe InDesign Document", Some("INDD"), "application/x-indesign", "indd", Kind::Document, "Document"),
    e(AdobeIntegratedRuntime, "AdobeIntegratedRuntime", "Adobe Integrated Runtime", Some("AIR"), "application/vnd.adobe.air-application-installer-package+zip", "air", Kind::Package, "Package"),
    e(AdobePhotoshopDocument, "AdobePhotoshopDocument", "Adobe Photoshop Document", Some("PSD"), "image/vnd.adobe.photoshop", "psd", Kind::Image, "Image"),
    e(AdvancedAudioCoding, "AdvancedAudioCoding", "Advanced Audio Coding", Some("AAC"), "audio/aac", "aac", Kind::Audio, "Audio"),
    e(AdvancedStreamRedirector, "AdvancedStreamRedirector", "Advanced Stream Redirector", Some("ASX"), "video/x-ms-asx", "asx", Kind::Playlist, "Playlist"),
    e(AdvancedSystemsFormat, "AdvancedSystemsFormat", "Advanced Systems Format", Some("ASF"), "application/vnd.ms-asf", "asf", Kind::Other, "Other"),
    e(AgeEncryption, "AgeEncryption", "age encryption", None, "application/x-age-encryption", "age", Kind::Other, "Other"),
    e(Alz, "Alz", "ALZ", None, "application/x-alz-compressed", "alz", Kind::Archive, "Archive"),
    e(AmigaDiskFile, "AmigaDiskFile", "Amiga Disk File", Some("ADF"), "application/x-amiga-disk-format", "adf", Kind::Disk, "Disk"),
    e(AndroidAppBundle, "AndroidAppBundle", "Android App Bundle", Some("AAB"), "application/vnd.android.aab", "aab", Kind::Package, "Package"),
    e(AndroidBinaryXml, "AndroidBinaryXml", "Android Binary XML", Some("AXML"), "application/vnd.android.axml", "xml", Kind::Metadata, "Metadata"),
    e(AndroidPackage, "AndroidPackage", "Android Package", Some("APK"), "application/vnd.android.package-archive", "apk", Kind::Package, "Package"),
    e(AndroidResourceStorageContainer, "AndroidResourceStorageContainer", "Android Resource Storage Container", Some("ARSC"), "application/vnd.android.arsc", "arsc", Kind::Other, "Other"),
    e(AnimatedPortableNetworkGraphics, "AnimatedPortableNetworkGraphics", "Animated Portable Network Graphics", Some("APNG"), "image/apng", "apng", Kind::Image, "Image"),
    e(ApacheArrowColumnar, "ApacheArrowColumnar", "Apache Arrow Columnar", Some("Arrow"), "application/vnd.apache.arrow.file", "arrow", Kind::Other, "Other"),
    e(ApacheAvro, "ApacheAvro", "Apache Avro", Some("Avro"), "application/vnd.apache.avro", "avro", Kind::Other, "Other"),
    e(ApacheParquet, "ApacheParquet", "Apache Parquet", Some("Parquet"), "application/vnd.apache.parquet", "parquet", Kind::Other, "Other"),
    e(Appimage, "Appimage", "AppImage", None, "application/x-appimage", "AppImage", Kind::Package, "Package"),
    e(AppleDiskImage, "AppleDiskImage", "Apple Disk Image", Some("DMG"), "application/x-apple-diskimage", "dmg", Kind::Disk, "Disk"),
    e(AppleIconImage, "AppleIconImage", "Apple Icon Image", Some("ICNS"), "image/x-icns", "icns", Kind::Image, "Image"),
    e(AppleItunesAudio, "AppleItunesAudio", "Apple iTunes Audio", Some("M4A"), "audio/x-m4a", "m4a", Kind::Audio, "Audio"),
    e(AppleItunesAudiobook, "AppleItunesAudiobook", "Apple iTunes Audiobook", Some("M4B"), "audio/mp4", "m4b", Kind::Audio, "Audio"),
    e(AppleItunesProtectedAudio, "AppleItunesProtectedAudio", "Apple iTunes Protected Audio", Some("M4P"), "audio/mp4", "m4p", Kind::Audio, "Audio"),
    e(AppleItunesVideo, "AppleItunesVideo", "Apple iTunes Video", Some("M4V"), "video/x-m4v", "m4v", Kind::Video, "Video"),
    e(AppleQuicktime, "AppleQuicktime", "Apple QuickTime", Some("MOV"), "video/quicktime", "mov", Kind::Video, "Video"),
    e(ArbitraryBinaryData, "ArbitraryBinaryData", "Arbitrary Binary Data", Some("BIN"), "application/octet-stream", "bin", Kind::Other, "Other"),
    e(ArchivedByRobertJung, "ArchivedByRobertJung", "Archived by Robert Jung", Some("ARJ"), "application/x-arj", "arj", Kind::Archive, "Archive"),
    e(Atari7800Rom, "Atari7800Rom", "Atari 7800 ROM", Some("A78"), "application/x-atari-7800-rom", "a78", Kind::Rom, "Rom"),
    e(Atom, "Atom", "Atom", None, "application/atom+xml", "atom", Kind::Other, "Other"),
    e(Au, "Au", "Au", None, "audio/basic", "au", Kind::Audio, "Audio"),
    e(AudioCodec3, "AudioCodec3", "Audio Codec 3", Some("AC-3"), "audio/ac3", "ac3", Kind::Audio, "Audio"),
    e(AudioInterchangeFileFormat, "AudioInterchangeFileFormat", "Audio Interchange File Format", Some("AIFF"), "audio/x-aiff", "aiff", Kind::Audio, "Audio"),
    e(AudioVideoInterleave, "AudioVideoInterleave", "Audio Video Interleave", Some("AVI"), "video/avi", "avi", Kind::Video, "Video"),
    e(AudioVisualResearch, "AudioVisualResearch", "Audio Visual Research", Some("AVR"), "audio/x-avr", "avr", Kind::Audio, "Audio"),
    e(AutocadDrawing, "AutocadDrawing", "AutoCAD Drawing", Some("DWG"), "application/x-dwg", "dwg", Kind::Model, "Model"),
    e(Autodesk123d, "Autodesk123d", "Autodesk 123D", Some("123DX"), "model/x-123dx", "123dx", Kind::Model, "Model"),
    e(AutodeskAlias, "AutodeskAlias", "Autodesk Alias", Some("WIRE"), "model/x-wire", "wire", Kind::Model, "Model"),
    e(AutodeskAnimator, "AutodeskAnimator", "Autodesk Animator", Some("FLI"), "video/x-fli", "fli", Kind::Video, "Video"),
    e(AutodeskAnimatorPro, "AutodeskAnimatorPro", "Autodesk Animator Pro", Some("FLC"), "video/x-flc", "flc", Kind::Video, "Video"),
    e(AutodeskInventorAssembly, "AutodeskInventorAssembly", "Autodesk Inventor Assembly", Some("IAM"), "model/x-iam", "iam", Kind::Model, "Model"),
    e(AutodeskInventorDrawing, "AutodeskInventorDrawing", "Autodesk Inventor Drawing", Some("IDW"), "model/x-idw", "idw", Kind::Model, "Model"),
    e(AutodeskInventorPart, "AutodeskInventorPart", "Autodesk Inventor Part", Some("IPT"), "model/x-ipt", "ipt", Kind::Model, "Model"),
    e(AutodeskInventorPresentation, "AutodeskInventorPresentation", "Autodesk Inventor Presentation", Some("IPN"), "model/x-ipn", "ipn", Kind::Model, "Model"),
    e(Av1ImageFileFormat, "Av1ImageFileFormat", "AV1 Image File Format", Some("AVIF"), "image/avif", "avif", Kind::Image, "Image"),
    e(Av1ImageFileFormatSequence, "Av1ImageFileFormatSequence", "AV1 Image File Format Sequence", Some("AVIFS"), "image/avif-sequence", "avifs", Kind::Image, "Image"),
    e(BdavMpeg2TransportStream, "BdavMpeg2TransportStream", "BDAV MPEG-2 Transport Stream", Some("M2TS"), "video/mp2t", "m2ts", Kind::Video, "Video"),
    e(BetterPortableGraphics, "BetterPortableGraphics", "Better Portable Graphics", Some("BPG"), "image/bpg", "bpg", Kind::Image, "Image"),
    e(Bittorrent, "Bittorrent", "BitTorrent", Some("Torrent"), "application/x-bittorrent", "torrent", Kind::Metadata, "Metadata"),
    e(Blender, "Blender", "Blender", Some("BLEND"), "application/x-blender", "blend", Kind::Model, "Model"),
    e(BmfontAscii, "BmfontAscii", "BMFont ASCII", Some("FNT"), "application/x-angelcode-bmfont", "fnt", Kind::Font, "Font"),
    e(BmfontBinary, "BmfontBinary", "BMFont Binary", Some("FNT"), "application/x-angelcode-bmfont", "fnt", Kind::Font, "Font"),
    e(BroadBandEbook, "BroadBandEbook", "Broad Band eBook", Some("BBeB"), "application/x-lrf", "lrf", Kind::Ebook, "Ebook"),
    e(Bzip, "Bzip", "bzip", Some("BZ"), "application/x-bzip", "bz", Kind::Compressed, "Compressed"),
    e(Bzip2, "Bzip2", "bzip2", Some("BZ2"), "application/x-bzip2", "bz2", Kind::Compressed, "Compressed"),
    e(Bzip3, "Bzip3", "BZip3", Some("BZ3"), "application/x-bzip3", "bz3", Kind::Compressed, "Compressed"),
    e(Cabinet, "Cabinet", "Cabinet", Some("CAB"), "application/vnd.ms-cab-compressed", "cab", Kind::Archive, "Archive"),
    e(CanonRaw, "CanonRaw", "Canon Raw", Some("CRW"), "image/x-canon-crw", "crw", Kind::Image, "Image"),
    e(CanonRaw2, "CanonRaw2", "Canon Raw 2", Some("CR2"), "image/x-canon-cr2", "cr2", Kind::Image, "Image"),
    e(CanonRaw3, "CanonRaw3", "Canon Raw 3", Some("CR3"), "image/x-canon-cr3", "cr3", Kind::Image, "Image"),
    e(CdAudio, "CdAudio", "CD Audio", Some("CDA"), "application/x-cdf", "cda", Kind::Metadata, "Metadata"),
    e(Cinema4d, "Cinema4d", "Cinema 4D", Some("C4D"), "model/x-c4d", "c4d", Kind::Model, "Model"),
    e(Cineon, "Cineon", "Cineon", Some("CIN"), "image/cineon", "cin", Kind::Image, "Image"),
    e(CircuitDiagramDocument, "CircuitDiagramDocument", "Circuit Diagram Document", Some("CDDX"), "application/vnd.circuitdiagram.document.main+xml", "cddx", Kind::Diagram, "Diagram"),
    e(ClojureScript, "ClojureScript", "Clojure Script", None, "text/x-clojure", "clj", Kind::Other, "Other"),
    e(CollaborativeDesignActivity, "CollaborativeDesignActivity", "Collaborative Design Activity", Some("COLLADA"), "model/vnd.collada+xml", "dae", Kind::Model, "Model"),
    e(Commodore64Cartridge, "Commodore64Cartridge", "Commodore 64 Cartridge", Some("CRT"), "application/x-commodore-64-cartridge", "crt", Kind::Rom, "Rom"),
    e(Commodore64Program, "Commodore64Program", "Commodore 64 Program", Some("PRG"), "application/x-commodore-64-program", "prg", Kind::Executable, "Executable"),
    e(CommonObjectFileFormat, "CommonObjectFileFormat", "Common Object File Format", Some("COFF"), "application/x-coff", "coff", Kind::Executable, "Executable"),
    e(CompoundFileBinary, "CompoundFileBinary", "Compound File Binary", Some("CFB"), "application/x-cfb", "cfb", Kind::Other, "Other"),
    e(CorelPresentations, "CorelPresentations", "Corel Presentations", Some("SHW"), "application/x-corelpresentations", "shw", Kind::Presentation, "Presentation"),
    e(CorelPresentations7, "CorelPresentations7", "Corel Presentations 7", Some("SHW"), "application/x-corelpresentations", "shw", Kind::Presentation, "Presentation"),
    e(Cpio, "Cpio", "cpio", None, "application/x-cpio", "cpio", Kind::Archive, "Archive"),
    e(CreativeVoice, "CreativeVoice", "Creative Voice", Some("VOC"), "audio/x-voc", "voc", Kind::Audio, "Audio"),
    e(DalvikExecutable, "DalvikExecutable", "Dalvik Executable", Some("DEX"), "application/vnd.android.dex", "dex", Kind::Executable, "Executable"),
    e(DebianPackage, "DebianPackage", "Debian Package", Some("DEB"), "application/vnd.debian.binary-package", "deb", Kind::Package, "Package"),
    e(DerCertificate, "DerCertificate", "DER Certificate", Some("DER"), "application/x-x509-ca-cert", "der", Kind::Other, "Other"),
    e(DesignWebFormat, "DesignWebFormat", "Design Web Format", Some("DWF"), "model/vnd.dwf", "dwf", Kind::Model, "Model"),
    e(DesignWebFormatXps, "DesignWebFormatXps", "Design Web Format XPS", Some("DWFX"), "model/vnd.dwfx+xps", "dwfx", Kind::Model, "Model"),
    e(DigitalImagingAndCommunicationsInMedicine, "DigitalImagingAndCommunicationsInMedicine", "Digital Imaging and Communications in Medicine", Some("DICOM"), "application/dicom", "dcm", Kind::Other, "Other"),
    e(DigitalPictureExchange, "DigitalPictureExchange", "Digital Picture Exchange", Some("DPX"), "image/x-dpx", "dpx", Kind::Image, "Image"),
    e(Djvu, "Djvu", "DjVu", None, "image/vnd.djvu", "djvu", Kind::Document, "Document"),
    e(DrawingExchangeFormatAscii, "DrawingExchangeFormatAscii", "Drawing Exchange Format ASCII", Some("DXF"), "application/x-dxf", "dxf", Kind::Model, "Model"),
    e(DrawingExchangeFormatBinary, "DrawingExchangeFormatBinary", "Drawing Exchange Format Binary", Some("DXF"), "application/x-dxf", "dxf", Kind::Model, "Model"),
    e(Drawio, "Drawio", "draw.io", Some("DRAWIO"), "application/vnd.jgraph.mxfile", "drawio", Kind::Diagram, "Diagram"),
    e(DynamicLinkLibrary, "DynamicLinkLibrary", "Dynamic Link Library", Some("DLL"), "application/vnd.microsoft.portable-executable", "dll", Kind::Executable, "Executable"),
    e(EightBitSampledVoice, "EightBitSampledVoice", "8-Bit Sampled Voice", Some("8SVX"), "audio/x-8svx", "8svx", Kind::Audio, "Audio"),
    e(ElectronicPublication, "ElectronicPublication", "Electronic Publication", Some("EPUB"), "application/epub+zip", "epub", Kind::Ebook, "Ebook"),
    e(EmbeddedOpentype, "EmbeddedOpentype", "Embedded OpenType", Some("EOT"), "application/vnd.ms-fontobject", "eot", Kind::Font, "Font"),
    e(Empty, "Empty", "Empty", None, "application/x-empty", "empty", Kind::Other, "Other"),
    e(EncapsulatedPostscript, "EncapsulatedPostscript", "Encapsulated PostScript", Some("EPS"), "application/eps", "eps", Kind::Image, "Image"),
    e(EnhancedMetafile, "EnhancedMetafile", "Enhanced Metafile", Some("EMF"), "image/emf", "emf", Kind::Image, "Image"),
    e(EnterpriseApplicationArchive, "EnterpriseApplicationArchive", "Enterprise Application Archive", Some("EAR"), "application/java-archive", "ear", Kind::Package, "Package"),
    e(ExecutableAndLinkableFormat, "ExecutableAndLinkableFormat", "Executable and Linkable Format", Some("ELF"), "application/x-executable", "elf", Kind::Executable, "Executable"),
    e(ExperimentalComputingFacility, "ExperimentalComputingFacility", "Experimental Computing Facility", Some("XCF"), "image/x-xcf", "xcf", Kind::Image, "Image"),
    e(Extensible3d, "Extensible3d", "Extensible 3D", Some("X3D"), "model/x3d+xml", "x3d", Kind::Model, "Model"),
    e(ExtensibleArchive, "ExtensibleArchive", "Extensible Archive", Some("XAR"), "application/x-xar", "xar", Kind::Archive, "Archive"),
    e(ExtensibleBinaryMetaLanguage, "ExtensibleBinaryMetaLanguage", "Extensible Binary Meta Language", Some("EBML"), "application/x-ebml", "ebml", Kind::Other, "Other"),
    e(ExtensibleMarkupLanguage, "ExtensibleMarkupLanguage", "Extensible Markup Language", Some("XML"), "text/xml", "xml", Kind::Other, "Other"),
    e(ExtensibleStylesheetLanguageTransformations, "ExtensibleStylesheetLanguageTransformations", "Extensible Stylesheet Language Transformations", Some("XSLT"), "application/xslt+xml", "xsl", Kind::Other, "Other"),
    e(Farbfeld, "Farbfeld", "farbfeld", Some("FF"), "image/x-ff", "ff", Kind::Image, "Image"),
    e(Fasttracker2ExtendedModule, "Fasttracker2ExtendedModule", "FastTracker 2 Extended Module", Some("XM"), "audio/x-xm", "xm", Kind::Audio, "Audio"),
    e(Fictionbook, "Fictionbook", "FictionBook", Some("FB2"), "application/x-fb2+xml", "fb2", Kind::Ebook, "Ebook"),
    e(FictionbookZip, "FictionbookZip", "FictionBook ZIP", Some("FBZ"), "application/x-fbz", "fbz", Kind::Ebook, "Ebook"),
    e(FigletFont, "FigletFont", "FIGlet Font", Some("FLF"), "application/x-figlet", "flf", Kind::Font, "Font"),
    e(FigmaDesign, "FigmaDesign", "Figma Design", Some("FIG"), "image/x-figma", "fig", Kind::Image, "Image"),
    e(Filmbox, "Filmbox", "Filmbox", Some("FBX"), "application/vnd.autodesk.fbx", "fbx", Kind::Model, "Model"),
    e(FlashCs5Project, "FlashCs5Project", "Flash CS5 Project", Some("FLA"), "application/vnd.adobe.fla", "fla", Kind::Other, "Other"),
    e(FlashMp4Audio, "FlashMp4Audio", "Flash MP4 Audio", Some("F4A"), "audio/mp4", "f4a", Kind::Audio, "Audio"),
    e(FlashMp4Audiobook, "FlashMp4Audiobook", "Flash MP4 Audiobook", Some("F4B"), "audio/mp4", "f4b", Kind::Audio, "Audio"),
    e(FlashMp4ProtectedVideo, "FlashMp4ProtectedVideo", "Flash MP4 Protected Video", Some("F4P"), "video/mp4", "f4p", Kind::Video, "Video"),
    e(FlashMp4Video, "FlashMp4Video", "Flash MP4 Video", Some("F4V"), "video/mp4", "f4v", Kind::Video, "Video"),
    e(FlashProject, "FlashProject", "Flash Project", Some("FLA"), "application/vnd.adobe.fla", "fla", Kind::Other, "Other"),
    e(FlashVideo, "FlashVideo", "Flash Video", Some("FLV"), "video/x-flv", "flv", Kind::Video, "Video"),
    e(FlexibleAndInteroperableDataTransfer, "FlexibleAndInteroperableDataTransfer", "Flexible and Interoperable Data Transfer", Some("FIT"), "application/x-fit", "fit", Kind::Geospatial, "Geospatial"),
    e(FlexibleImageTransportSystem, "FlexibleImageTransportSystem", "Flexible Image Transport System", Some("FITS"), "application/fits", "fits", Kind::Other, "Other"),
    e(FreeLosslessAudioCodec, "FreeLosslessAudioCodec", "Free Lossless Audio Codec", Some("FLAC"), "audio/flac", "flac", Kind::Audio, "Audio"),
    e(FreeLosslessImageFormat, "FreeLosslessImageFormat", "Free Lossless Image Format", Some("FLIF"), "image/flif", "flif", Kind::Image, "Image"),
    e(FujifilmRaw, "FujifilmRaw", "Fujifilm Raw", Some("RAF"), "image/x-fuji-raf", "raf", Kind::Image, "Image"),
    e(Fusion360, "Fusion360", "Fusion 360", Some("F3D"), "model/x-f3d", "f3d", Kind::Model, "Model"),
    e(GameBoyAdvanceRom, "GameBoyAdvanceRom", "Game Boy Advance ROM", Some("GBA"), "application/x-gba-rom", "gba", Kind::Rom, "Rom"),
    e(GameBoyColorRom, "GameBoyColorRom", "Game Boy Color ROM", Some("GBC"), "application/x-gameboy-color-rom", "gbc", Kind::Rom, "Rom"),
    e(GameBoyRom, "GameBoyRom", "Game Boy ROM", Some("GB"), "application/x-gameboy-rom", "gb", Kind::Rom, "Rom"),
    e(GameGearRom, "GameGearRom", "Game Gear ROM", Some("GG"), "application/x-gamegear-rom", "gg", Kind::Rom, "Rom"),
    e(GeographyMarkupLanguage, "GeographyMarkupLanguage", "Geography Markup Language", Some("GML"), "application/gml+xml", "gml", Kind::Geospatial, "Geospatial"),
    e(GettextMachineObject, "GettextMachineObject", "gettext Machine Object", Some("MO"), "application/x-gettext-translation", "mo", Kind::Other, "Other"),
    e(GlTransmissionFormatBinary, "GlTransmissionFormatBinary", "GL Transmission Format Binary", Some("GLB"), "model/gltf-binary", "glb", Kind::Model, "Model"),
    e(Glyphs, "Glyphs", "Glyphs", None, "font/x-glyphs", "glyphs", Kind::Font, "Font"),
    e(GoogleChromeExtension, "GoogleChromeExtension", "Google Chrome Extension", Some("CRX"), "application/x-google-chrome-extension", "crx", Kind::Package, "Package"),
    e(GoogleDraco, "GoogleDraco", "Google Draco", Some("Draco"), "model/x-draco", "drc", Kind::Model, "Model"),
    e(GpsExchangeFormat, "GpsExchangeFormat", "GPS Exchange Format", Some("GPX"), "application/gpx+xml", "gpx", Kind::Geospatial, "Geospatial"),
    e(GraphicsInterchangeFormat, "GraphicsInterchangeFormat", "Graphics Interchange Format", Some("GIF"), "image/gif", "gif", Kind::Image, "Image"),
    e(Gzip, "Gzip", "gzip", Some("GZ"), "application/gzip", "gz", Kind::Compressed, "Compressed"),
    e(HighEfficiencyImageCoding, "HighEfficiencyImageCoding", "High Efficiency Image Coding", Some("HEIC"), "image/heic", "heic", Kind::Image, "Image"),
    e(HighEfficiencyImageCodingSequence, "HighEfficiencyImageCodingSequence", "High Efficiency Image Coding Sequence", Some("HEICS"), "image/heic-sequence", "heics", Kind::Image, "Image"),
    e(HighEfficiencyImageFileFormat, "HighEfficiencyImageFileFormat", "High Efficiency Image File Format", Some("HEIF"), "image/heif", "heif", Kind::Image, "Image"),
    e(HighEfficiencyImageFileFormatSequence, "HighEfficiencyImageFileFormatSequence", "High Efficiency Image File Format Sequence", Some("HEIFS"), "image/heif-sequence", "heifs", Kind::Image, "Image"),
    e(HypertextMarkupLanguage, "HypertextMarkupLanguage", "HyperText Markup Language", Some("HTML"), "text/html", "html", Kind::Other, "Other"),
    e(Icalendar, "Icalendar", "iCalendar", Some("ICS"), "text/calendar", "ics", Kind::Other, "Other"),
    e(IccProfile, "IccProfile", "ICC Profile", Some("ICC"), "application/vnd.iccprofile", "icc", Kind::Other, "Other"),
    e(Id3v2, "Id3v2", "ID3v2", Some("ID3"), "application/x-id3v2", "id3", Kind::Metadata, "Metadata"),
    e(ImpulseTrackerModule, "ImpulseTrackerModule", "Impulse Tracker Module", Some("IT"), "audio/x-it", "it", Kind::Audio, "Audio"),
    e(IndesignMarkupLanguage, "IndesignMarkupLanguage", "InDesign Markup Language", Some("IDML"), "application/vnd.adobe.indesign-idml-package", "idml", Kind::Document, "Document"),
    e(InitialGraphicsExchangeSpecification, "InitialGraphicsExchangeSpecification", "Initial Graphics Exchange Specification", Some("IGES"), "model/iges", "iges", Kind::Model, "Model"),
    e(InterQuakeExport, "InterQuakeExport", "Inter-Quake Export", Some("IQE"), "model/x-iqe", "iqe", Kind::Model, "Model"),
    e(InterQuakeModel, "InterQuakeModel", "Inter-Quake Model", Some("IQM"), "model/x-iqm", "iqm", Kind::Model, "Model"),
    e(IosAppStorePackage, "IosAppStorePackage", "iOS App Store Package", Some("IPA"), "application/x-ios-app", "ipa", Kind::Package, "Package"),
    e(Iso9660, "Iso9660", "ISO 9660", Some("ISO"), "application/x-iso9660-image", "iso", Kind::Disk, "Disk"),
    e(JavaArchive, "JavaArchive", "Java Archive", Some("JAR"), "application/java-archive", "jar", Kind::Package, "Package"),
    e(JavaClass, "JavaClass", "Java Class", None, "application/java-vm", "class", Kind::Executable, "Executable"),
    e(JavaKeystore, "JavaKeystore", "Java KeyStore", Some("JKS"), "application/x-java-keystore", "jks", Kind::Other, "Other"),
    e(JointPhotographicExpertsGroup, "JointPhotographicExpertsGroup", "Joint Photographic Experts Group", Some("JPEG"), "image/jpeg", "jpg", Kind::Image, "Image"),
    e(Jpeg2000Codestream, "Jpeg2000Codestream", "JPEG 2000 Codestream", Some("J2C"), "image/x-jp2-codestream", "j2c", Kind::Image, "Image"),
    e(Jpeg2000Part1, "Jpeg2000Part1", "JPEG 2000 Part 1", Some("JP2"), "image/jp2", "jp2", Kind::Image, "Image"),
    e(Jpeg2000Part2, "Jpeg2000Part2", "JPEG 2000 Part 2", Some("JPX"), "image/jpx", "jpx", Kind::Image, "Image"),
    e(Jpeg2000Part3, "Jpeg2000Part3", "JPEG 2000 Part 3", Some("MJ2"), "video/mj2", "mj2", Kind::Video, "Video"),
    e(Jpeg2000Part6, "Jpeg2000Part6", "JPEG 2000 Part 6", Some("JPM"), "image/jpm", "jpm", Kind::Image, "Image"),
    e(JpegExtendedRange, "JpegExtendedRange", "JPEG Extended Range", Some("JXR"), "image/jxr", "jxr", Kind::Image, "Image"),
    e(JpegLs, "JpegLs", "JPEG-LS", Some("JLS"), "image/jls", "jls", Kind::Image, "Image"),
    e(JpegNetworkGraphics, "JpegNetworkGraphics", "JPEG Network Graphics", Some("JNG"), "image/x-jng", "jng", Kind::Image, "Image"),
    e(JpegXl, "JpegXl", "JPEG XL", Some("JXL"), "image/jxl", "jxl", Kind::Image, "Image"),
    e(JsonFeed, "JsonFeed", "JSON Feed", None, "application/feed+json", "json", Kind::Other, "Other"),
    e(KeyholeMarkupLanguage, "KeyholeMarkupLanguage", "Keyhole Markup Language", Some("KML"), "application/vnd.google-earth.kml+xml", "kml", Kind::Geospatial, "Geospatial"),
    e(KeyholeMarkupLanguageZip, "KeyholeMarkupLanguageZip", "Keyhole Markup Language ZIP", Some("KMZ"), "application/vnd.google-earth.kmz", "kmz", Kind::Geospatial, "Geospatial"),
    e(KhronosTexture, "KhronosTexture", "Khronos Texture", Some("KTX"), "image/ktx", "ktx", Kind::Image, "Image"),
    e(KhronosTexture2, "KhronosTexture2", "Khronos Texture 2", Some("KTX2"), "image/ktx2", "ktx2", Kind::Image, "Image"),
    e(Larc, "Larc", "LArc", Some("LZS"), "application/x-lzh-compressed", "lzs", Kind::Archive, "Archive"),
    e(Latex, "Latex", "LaTeX", Some("TeX"), "text/x-tex", "tex", Kind::Document, "Document"),
    e(LempelZivFiniteStateEntropy, "LempelZivFiniteStateEntropy", "Lempel-Ziv Finite State Entropy", Some("LZFSE"), "application/x-lzfse", "lzfse", Kind::Compressed, "Compressed"),
    e(LempelZivMarkovChainAlgorithm, "LempelZivMarkovChainAlgorithm", "Lempel-Ziv-Markov chain algorithm", Some("LZMA"), "application/x-lzma", "lzma", Kind::Compressed, "Compressed"),
    e(Lha, "Lha", "LHA", None, "application/x-lzh-compressed", "lzh", Kind::Archive, "Archive"),
    e(LinearExecutable, "LinearExecutable", "Linear Executable", Some("LE"), "application/x-dosexec", "exe", Kind::Executable, "Executable"),
    e(LlvmBitcode, "LlvmBitcode", "LLVM Bitcode", Some("BC"), "application/x-llvm", "bc", Kind::Executable, "Executable"),
    e(LongRangeZip, "LongRangeZip", "Long Range ZIP", Some("LRZIP"), "application/x-lrzip", "lrz", Kind::Compressed, "Compressed"),
    e(LuaBytecode, "LuaBytecode", "Lua Bytecode", None, "application/x-lua-bytecode", "luac", Kind::Executable, "Executable"),
    e(LuaScript, "LuaScript", "Lua Script", None, "text/x-lua", "lua", Kind::Other, "Other"),
    e(Lz4, "Lz4", "LZ4", None, "application/x-lz4", "lz4", Kind::Compressed, "Compressed"),
    e(Lzip, "Lzip", "lzip", Some("LZ"), "application/x-lzip", "lz", Kind::Compressed, "Compressed"),
    e(Lzop, "Lzop", "lzop", Some("LZO"), "application/x-lzop", "lzo", Kind::Compressed, "Compressed"),
    e(MachO, "MachO", "Mach-O", None, "application/x-mach-binary", "mach", Kind::Executable, "Executable"),
    e(MacosAlias, "MacosAlias", "macOS Alias", None, "application/x-apple-alias", "alias", Kind::Metadata, "Metadata"),
    e(Magicavoxel, "Magicavoxel", "MagicaVoxel", Some("VOX"), "model/x-vox", "vox", Kind::Model, "Model"),
    e(MagickImageFileFormat, "MagickImageFileFormat", "Magick Image File Format", Some("MIFF"), "image/x-miff", "miff", Kind::Image, "Image"),
    e(MaterialExchangeFormat, "MaterialExchangeFormat", "Material Exchange Format", Some("MXF"), "application/mxf", "mxf", Kind::Video, "Video"),
    e(MathematicalMarkupLanguage, "MathematicalMarkupLanguage", "Mathematical Markup Language", Some("MathML"), "application/mathml+xml", "mathml", Kind::Formula, "Formula"),
    e(Matroska3dVideo, "Matroska3dVideo", "Matroska 3D Video", Some("MK3D"), "video/matroska", "mk3d", Kind::Video, "Video"),
    e(MatroskaAudio, "MatroskaAudio", "Matroska Audio", Some("MKA"), "audio/matroska", "mka", Kind::Audio, "Audio"),
    e(MatroskaSubtitles, "MatroskaSubtitles", "Matroska Subtitles", Some("MKS"), "application/x-matroska", "mks", Kind::Subtitle, "Subtitle"),
    e(MatroskaVideo, "MatroskaVideo", "Matroska Video", Some("MKV"), "video/matroska", "mkv", Kind::Video, "Video"),
    e(MayaAscii, "MayaAscii", "Maya ASCII", Some("MA"), "application/x-maya-ascii", "ma", Kind::Model, "Model"),
    e(MayaBinary, "MayaBinary", "Maya Binary", Some("MB"), "application/x-maya-binary", "mb", Kind::Model, "Model"),
    e(MegaDriveRom, "MegaDriveRom", "Mega Drive ROM", Some("MD"), "application/x-genesis-rom", "md", Kind::Rom, "Rom"),
    e(MetaInformationEncapsulation, "MetaInformationEncapsulation", "Meta Information Encapsulation", Some("MIE"), "application/x-mie", "mie", Kind::Metadata, "Metadata"),
    e(MicrosoftAccess2007Database, "MicrosoftAccess2007Database", "Microsoft Access 2007 Database", Some("ACCDB"), "application/x-msaccess", "accdb", Kind::Database, "Database"),
    e(MicrosoftAccessDatabase, "MicrosoftAccessDatabase", "Microsoft Access Database", Some("MDB"), "application/x-msaccess", "mdb", Kind::Database, "Database"),
    e(MicrosoftCompiledHtmlHelp, "MicrosoftCompiledHtmlHelp", "Microsoft Compiled HTML Help", Some("CHM"), "application/vnd.ms-htmlhelp", "chm", Kind::Other, "Other"),
    e(MicrosoftDigitalVideoRecording, "MicrosoftDigitalVideoRecording", "Microsoft Digital Video Recording", Some("DVR-MS"), "video/x-ms-asf", "dvr-ms", Kind::Video, "Video"),
    e(MicrosoftDirectdrawSurface, "MicrosoftDirectdrawSurface", "Microsoft DirectDraw Surface", Some("DDS"), "image/vnd.ms-dds", "dds", Kind::Image, "Image"),
    e(MicrosoftExcelSpreadsheet, "MicrosoftExcelSpreadsheet", "Microsoft Excel Spreadsheet", Some("XLS"), "application/vnd.ms-excel", "xls", Kind::Spreadsheet, "Spreadsheet"),
    e(MicrosoftPowerpointPresentation, "MicrosoftPowerpointPresentation", "Microsoft PowerPoint Presentation", Some("PPT"), "application/vnd.ms-powerpoint", "ppt", Kind::Presentation, "Presentation"),
    e(MicrosoftProjectPlan, "MicrosoftProjectPlan", "Microsoft Project Plan", Some("MPP"), "application/vnd.ms-project", "mpp", Kind::Other, "Other"),
    e(MicrosoftPublisherDocument, "MicrosoftPublisherDocument", "Microsoft Publisher Document", Some("PUB"), "application/vnd.ms-publisher", "pub", Kind::Document, "Document"),
    e(MicrosoftReader, "MicrosoftReader", "Microsoft Reader", Some("LIT"), "application/x-ms-reader", "lit", Kind::Ebook, "Ebook"),
    e(MicrosoftSoftwareInstaller, "MicrosoftSoftwareInstaller", "Microsoft Software Installer", Some("MSI"), "application/x-msi", "msi", Kind::Package, "Package"),
    e(MicrosoftVirtualHardDisk, "MicrosoftVirtualHardDisk", "Microsoft Virtual Hard Disk", Some("VHD"), "application/x-vhd", "vhd", Kind::Disk, "Disk"),
    e(MicrosoftVirtualHardDisk2, "MicrosoftVirtualHardDisk2", "Microsoft Virtual Hard Disk 2", Some("VHDX"), "application/x-vhdx", "vhdx", Kind::Disk, "Disk"),
    e(MicrosoftVisioDrawing, "MicrosoftVisioDrawing", "Microsoft Visio Drawing", Some("VSD"), "application/vnd.visio", "vsd", Kind::Diagram, "Diagram"),
    e(MicrosoftVisualStudioExtension, "MicrosoftVisualStudioExtension", "Microsoft Visual Studio Extension", Some("VSIX"), "application/vsix", "vsix", Kind::Package, "Package"),
    e(MicrosoftVisualStudioSolution, "MicrosoftVisualStudioSolution", "Microsoft Visual Studio Solution", Some("SLN"), "application/vnd.ms-developer", "sln", Kind::Other, "Other"),
    e(MicrosoftWordDocument, "MicrosoftWordDocument", "Microsoft Word Document", Some("DOC"), "application/msword", "doc", Kind::Document, "Document"),
    e(MicrosoftWorks6Spreadsheet, "MicrosoftWorks6Spreadsheet", "Microsoft Works 6 Spreadsheet", Some("XLR"), "application/vnd.ms-works", "xlr", Kind::Spreadsheet, "Spreadsheet"),
    e(MicrosoftWorksDatabase, "MicrosoftWorksDatabase", "Microsoft Works Database", Some("WDB"), "application/vnd.ms-works-db", "wdb", Kind::Database, "Database"),
    e(MicrosoftWorksSpreadsheet, "MicrosoftWorksSpreadsheet", "Microsoft Works Spreadsheet", Some("WKS"), "application/vnd.ms-works", "wks", Kind::Spreadsheet, "Spreadsheet"),
    e(MicrosoftWorksWordProcessor, "MicrosoftWorksWordProcessor", "Microsoft Works Word Processor", Some("WPS"), "application/vnd.ms-works", "wps", Kind::Document, "Document"),
    e(MicrosoftWrite, "MicrosoftWrite", "Microsoft Write", Some("WRI"), "application/x-mswrite", "wri", Kind::Document, "Document"),
    e(Mobipocket, "Mobipocket", "Mobipocket", Some("MOBI"), "application/x-mobipocket-ebook", "mobi", Kind::Ebook, "Ebook"),
    e(Model3dAscii, "Model3dAscii", "Model 3D ASCII", Some("A3D"), "text/x-3d-model", "a3d", Kind::Model, "Model"),
    e(Model3dBinary, "Model3dBinary", "Model 3D Binary", Some("M3D"), "model/x-3d-model", "m3d", Kind::Model, "Model"),
    e(MonkeysAudio, "MonkeysAudio", "Monkey's Audio", Some("APE"), "audio/x-ape", "ape", Kind::Audio, "Audio"),
    e(MozillaArchive, "MozillaArchive", "Mozilla Archive", Some("MAR"), "application/x-mozilla-archive", "mar", Kind::Archive, "Archive"),
    e(Mp3Url, "Mp3Url", "MP3 URL", Some("M3U"), "audio/x-mpegurl", "m3u", Kind::Playlist, "Playlist"),
    e(Mpeg12AudioLayer2, "Mpeg12AudioLayer2", "MPEG-1/2 Audio Layer 2", Some("MP2"), "audio/mpeg", "mp2", Kind::Audio, "Audio"),
    e(Mpeg12AudioLayer3, "Mpeg12AudioLayer3", "MPEG-1/2 Audio Layer 3", Some("MP3"), "audio/mpeg", "mp3", Kind::Audio, "Audio"),
    e(Mpeg12Video, "Mpeg12Video", "MPEG-1/2 Video", Some("MPG"), "video/mpeg", "mpg", Kind::Video, "Video"),
    e(Mpeg2TransportStream, "Mpeg2TransportStream", "MPEG-2 Transport Stream", Some("TS"), "video/mp2t", "ts", Kind::Video, "Video"),
    e(Mpeg4Part14, "Mpeg4Part14", "MPEG-4 Part 14", Some("MP4"), "application/mp4", "mp4", Kind::Other, "Other"),
    e(Mpeg4Part14Audio, "Mpeg4Part14Audio", "MPEG-4 Part 14 Audio", Some("MP4"), "audio/mp4", "mp4", Kind::Audio, "Audio"),
    e(Mpeg4Part14Subtitles, "Mpeg4Part14Subtitles", "MPEG-4 Part 14 Subtitles", Some("MP4"), "application/mp4", "mp4", Kind::Subtitle, "Subtitle"),
    e(Mpeg4Part14Video, "Mpeg4Part14Video", "MPEG-4 Part 14 Video", Some("MP4"), "video/mp4", "mp4", Kind::Video, "Video"),
    e(MpegDashMpd, "MpegDashMpd", "MPEG-DASH MPD", Some("MPD"), "application/dash+xml", "mpd", Kind::Playlist, "Playlist"),
    e(MsDosBatch, "MsDosBatch", "MS-DOS Batch", Some("Batch"), "text/x-msdos-batch", "bat", Kind::Other, "Other"),
    e(MsDosExecutable, "MsDosExecutable", "MS-DOS Executable", Some("EXE"), "application/x-dosexec", "exe", Kind::Executable, "Executable"),
    e(Mtv, "Mtv", "MTV", None, "video/x-mtv", "mtv", Kind::Video, "Video"),
    e(MultiLayerArchive, "MultiLayerArchive", "Multi Layer Archive", Some("MLA"), "application/x-mla", "mla", Kind::Archive, "Archive"),
    e(MultipleImageNetworkGraphics, "MultipleImageNetworkGraphics", "Multiple-image Network Graphics", Some("MNG"), "image/x-mng", "mng", Kind::Image, "Image"),
    e(Musepack, "Musepack", "Musepack", Some("MPC"), "audio/x-musepack", "mpc", Kind::Audio, "Audio"),
    e(MusicalInstrumentDigitalInterface, "MusicalInstrumentDigitalInterface", "Musical Instrument Digital Interface", Some("MIDI"), "audio/midi", "mid", Kind::Audio, "Audio"),
    e(Musicxml, "Musicxml", "MusicXML", None, "application/vnd.recordare.musicxml+xml", "musicxml", Kind::Other, "Other"),
    e(MusicxmlZip, "MusicxmlZip", "MusicXML ZIP", Some("MXL"), "application/vnd.recordare.musicxml", "mxl", Kind::Other, "Other"),
    e(NeoGeoPocketColorRom, "NeoGeoPocketColorRom", "Neo Geo Pocket Color ROM", Some("NGC"), "application/x-neo-geo-pocket-rom", "ngc", Kind::Rom, "Rom"),
    e(NeoGeoPocketRom, "NeoGeoPocketRom", "Neo Geo Pocket ROM", Some("NGP"), "application/x-neo-geo-pocket-rom", "ngp", Kind::Rom, "Rom"),
    e(NewExecutable, "NewExecutable", "New Executable", Some("NE"), "application/x-ms-ne-executable", "exe", Kind::Executable, "Executable"),
    e(NikonElectronicFile, "NikonElectronicFile", "Nikon Electronic File", Some("NEF"), "image/x-nikon-nef", "nef", Kind::Image, "Image"),
    e(Nintendo64Rom, "Nintendo64Rom", "Nintendo 64 ROM", Some("Z64"), "application/x-n64-rom", "z64", Kind::Rom, "Rom"),
    e(NintendoDsRom, "NintendoDsRom", "Nintendo DS ROM", Some("NDS"), "application/x-nintendo-ds-rom", "nds", Kind::Rom, "Rom"),
    e(NintendoEntertainmentSystemRom, "NintendoEntertainmentSystemRom", "Nintendo Entertainment System ROM", Some("NES"), "application/x-nintendo-nes-rom", "nes", Kind::Rom, "Rom"),
    e(NintendoSwitchExecutable, "NintendoSwitchExecutable", "Nintendo Switch Executable", Some("NSO"), "application/x-nintendo-switch-executable", "nso", Kind::Executable, "Executable"),
    e(NintendoSwitchPackage, "NintendoSwitchPackage", "Nintendo Switch Package", Some("NSP"), "application/x-nintendo-switch-package", "nsp", Kind::Package, "Package"),
    e(NintendoSwitchRom, "NintendoSwitchRom", "Nintendo Switch ROM", Some("XCI"), "application/x-nintendo-switch-rom", "xci", Kind::Rom, "Rom"),
    e(OfficeOpenXmlDocument, "OfficeOpenXmlDocument", "Office Open XML Document", Some("DOCX"), "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "docx", Kind::Document, "Document"),
    e(OfficeOpenXmlDrawing, "OfficeOpenXmlDrawing", "Office Open XML Drawing", Some("VSDX"), "application/vnd.ms-visio.drawing.main+xml", "vsdx", Kind::Diagram, "Diagram"),
    e(OfficeOpenXmlPresentation, "OfficeOpenXmlPresentation", "Office Open XML Presentation", Some("PPTX"), "application/vnd.openxmlformats-officedocument.presentationml.presentation", "pptx", Kind::Presentation, "Presentation"),
    e(OfficeOpenXmlSpreadsheet, "OfficeOpenXmlSpreadsheet", "Office Open XML Spreadsheet", Some("XLSX"), "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", "xlsx", Kind::Spreadsheet, "Spreadsheet"),
    e(OggFlac, "OggFlac", "Ogg FLAC", Some("OGA"), "audio/ogg", "oga", Kind::Audio, "Audio"),
    e(OggMedia, "OggMedia", "Ogg Media", Some("OGM"), "video/ogg", "ogm", Kind::Video, "Video"),
    e(OggMultiplexedMedia, "OggMultiplexedMedia", "Ogg Multiplexed Media", Some("OGX"), "application/ogg", "ogx", Kind::Other, "Other"),
    e(OggOpus, "OggOpus", "Ogg Opus", Some("Opus"), "audio/opus", "opus", Kind::Audio, "Audio"),
    e(OggSpeex, "OggSpeex", "Ogg Speex", Some("Speex"), "audio/ogg", "spx", Kind::Audio, "Audio"),
    e(OggTheora, "OggTheora", "Ogg Theora", Some("Theora"), "video/ogg", "ogv", Kind::Video, "Video"),
    e(OggVorbis, "OggVorbis", "Ogg Vorbis", Some("Vorbis"), "audio/ogg", "ogg", Kind::Audio, "Audio"),
    e(OlympusRawFormat, "OlympusRawFormat", "Olympus Raw Format", Some("ORF"), "image/x-olympus-orf", "orf", Kind::Image, "Image"),
    e(OpendocumentDatabase, "OpendocumentDatabase", "OpenDocument Database", Some("ODB"), "application/vnd.oasis.opendocument.database", "odb", Kind::Database, "Database"),
    e(OpendocumentFormula, "OpendocumentFormula", "OpenDocument Formula", Some("ODF"), "application/vnd.oasis.opendocument.formula", "odf", Kind::Formula, "Formula"),
    e(OpendocumentFormulaTemplate, "OpendocumentFormulaTemplate", "OpenDocument Formula Template", Some("OTF"), "application/vnd.oasis.opendocument.formula-template", "otf", Kind::Formula, "Formula"),
    e(OpendocumentGraphics, "OpendocumentGraphics", "OpenDocument Graphics", Some("ODG"), "application/vnd.oasis.opendocument.graphics", "odg", Kind::Image, "Image"),
    e(OpendocumentGraphicsTemplate, "OpendocumentGraphicsTemplate", "OpenDocument Graphics Template", Some("OTG"), "application/vnd.oasis.opendocument.graphics-template", "otg", Kind::Image, "Image"),
    e(OpendocumentPresentation, "OpendocumentPresentation", "OpenDocument Presentation", Some("ODP"), "application/vnd.oasis.opendocument.presentation", "odp", Kind::Presentation, "Presentation"),
    e(OpendocumentPresentationTemplate, "OpendocumentPresentationTemplate", "OpenDocument Presentation Template", Some("OTP"), "application/vnd.oasis.opendocument.presentation-template", "otp", Kind::Presentation, "Presentation"),
    e(OpendocumentSpreadsheet, "OpendocumentSpreadsheet", "OpenDocument Spreadsheet", Some("ODS"), "application/vnd.oasis.opendocument.spreadsheet", "ods", Kind::Spreadsheet, "Spreadsheet"),
    e(OpendocumentSpreadsheetTemplate, "OpendocumentSpreadsheetTemplate", "OpenDocument Spreadsheet Template", Some("OTS"), "application/vnd.oasis.opendocument.spreadsheet-template", "ots", Kind::Spreadsheet, "Spreadsheet"),
    e(OpendocumentText, "OpendocumentText", "OpenDocument Text", Some("ODT"), "application/vnd.oasis.opendocument.text", "odt", Kind::Document, "Document"),
    e(OpendocumentTextMaster, "OpendocumentTextMaster", "OpenDocument Text Master", Some("ODM"), "application/vnd.oasis.opendocument.text-master", "odm", Kind::Document, "Document"),
    e(OpendocumentTextMasterTemplate, "OpendocumentTextMasterTemplate", "OpenDocument Text Master Template", Some("OTM"), "application/vnd.oasis.opendocument.text-master-template", "otm", Kind::Document, "Document"),
    e(OpendocumentTextTemplate, "OpendocumentTextTemplate", "OpenDocument Text Template", Some("OTT"), "application/vnd.oasis.opendocument.text-template", "ott", Kind::Document, "Document"),
    e(Openexr, "Openexr", "OpenEXR", Some("EXR"), "image/x-exr", "exr", Kind::Image, "Image"),
    e(Opennurbs, "Opennurbs", "openNURBS", Some("3DM"), "model/x-3dm", "3dm", Kind::Model, "Model"),
    e(Openraster, "Openraster", "OpenRaster", Some("ORA"), "image/openraster", "ora", Kind::Image, "Image"),
    e(Opentype, "Opentype", "OpenType", Some("OTF"), "font/otf", "otf", Kind::Font, "Font"),
    e(Openxps, "Openxps", "OpenXPS", Some("OXPS"), "application/oxps", "xps", Kind::Document, "Document"),
    e(OptimizedDalvikExecutable, "OptimizedDalvikExecutable", "Optimized Dalvik Executable", Some("DEY"), "application/vnd.android.dey", "dey", Kind::Executable, "Executable"),
    e(PanasonicRaw, "PanasonicRaw", "Panasonic Raw", Some("RW2"), "image/x-panasonic-rw2", "rw2", Kind::Image, "Image"),
    e(PcapDump, "PcapDump", "PCAP Dump", Some("PCAP"), "application/vnd.tcpdump.pcap", "pcap", Kind::Other, "Other"),
    e(PcapNextGenerationDump, "PcapNextGenerationDump", "PCAP Next Generation Dump", Some("PCAPNG"), "application/x-pcapng", "pcapng", Kind::Other, "Other"),
    e(PemCertificate, "PemCertificate", "PEM Certificate", Some("PEM"), "application/x-pem-file", "crt", Kind::Other, "Other"),
    e(PemCertificateSigningRequest, "PemCertificateSigningRequest", "PEM Certificate Signing Request", Some("PEM"), "application/x-pem-file", "csr", Kind::Other, "Other"),
    e(PemPrivateKey, "PemPrivateKey", "PEM Private Key", Some("PEM"), "application/x-pem-file", "key", Kind::Other, "Other"),
    e(PemPublicKey, "PemPublicKey", "PEM Public Key", Some("PEM"), "application/x-pem-file", "pub", Kind::Other, "Other"),
    e(PerlScript, "PerlScript", "Perl Script", None, "text/x-perl", "pl", Kind::Other, "Other"),
    e(PersonalStorageTable, "PersonalStorageTable", "Personal Storage Table", Some("PST"), "application/vnd.ms-outlook", "pst", Kind::Other, "Other"),
    e(PgpMessage, "PgpMessage", "PGP Message", Some("PGP"), "application/pgp", "asc", Kind::Other, "Other"),
    e(PgpPrivateKeyBlock, "PgpPrivateKeyBlock", "PGP Private Key Block", Some("PGP"), "application/pgp-keys", "asc", Kind::Other, "Other"),
    e(PgpPublicKeyBlock, "PgpPublicKeyBlock", "PGP Public Key Block", Some("PGP"), "application/pgp-keys", "asc", Kind::Other, "Other"),
    e(PgpSignature, "PgpSignature", "PGP Signature", Some("PGP"), "application/pgp-signature", "asc", Kind::Other, "Other"),
    e(PgpSignedMessage, "PgpSignedMessage", "PGP Signed Message", Some("PGP"), "application/pgp", "asc", Kind::Other, "Other"),
    e(PictureExchange, "PictureExchange", "Picture Exchange", Some("PCX"), "image/x-pcx", "pcx", Kind::Image, "Image"),
    e(PlainText, "PlainText", "Plain Text", Some("TXT"), "text/plain", "txt", Kind::Other, "Other"),
    e(Pmarc, "Pmarc", "PMarc", Some("PMA"), "application/x-lzh-compressed", "pma", Kind::Archive, "Archive"),
    e(PolygonAscii, "PolygonAscii", "Polygon ASCII", Some("PLY"), "model/x-ply-ascii", "ply", Kind::Model, "Model"),
    e(PolygonBinary, "PolygonBinary", "Polygon Binary", Some("PLY"), "model/x-ply-binary", "ply", Kind::Model, "Model"),
    e(PortableArbitraryMap, "PortableArbitraryMap", "Portable Arbitrary Map", Some("PAM"), "image/x-portable-arbitrarymap", "pam", Kind::Image, "Image"),
    e(PortableBitmap, "PortableBitmap", "Portable BitMap", Some("PBM"), "image/x-portable-bitmap", "pbm", Kind::Image, "Image"),
    e(PortableDocumentFormat, "PortableDocumentFormat", "Portable Document Format", Some("PDF"), "application/pdf", "pdf", Kind::Document, "Document"),
    e(PortableExecutable, "PortableExecutable", "Portable Executable", Some("PE"), "application/vnd.microsoft.portable-executable", "exe", Kind::Executable, "Executable"),
    e(PortableFloatmap, "PortableFloatmap", "Portable FloatMap", Some("PFM"), "image/x-pfm", "pfm", Kind::Image, "Image"),
    e(PortableGraymap, "PortableGraymap", "Portable GrayMap", Some("PGM"), "image/x-portable-graymap", "pgm", Kind::Image, "Image"),
    e(PortableNetworkGraphics, "PortableNetworkGraphics", "Portable Network Graphics", Some("PNG"), "image/png", "png", Kind::Image, "Image"),
    e(PortablePixmap, "PortablePixmap", "Portable PixMap", Some("PPM"), "image/x-portable-pixmap", "ppm", Kind::Image, "Image"),
    e(Postscript, "Postscript", "PostScript", Some("PS"), "application/postscript", "ps", Kind::Document, "Document"),
    e(PythonScript, "PythonScript", "Python Script", None, "text/x-script.python", "py", Kind::Other, "Other"),
    e(QemuCopyOnWrite, "QemuCopyOnWrite", "QEMU Copy On Write", Some("QCOW"), "application/x-qemu-disk", "qcow", Kind::Disk, "Disk"),
    e(QualcommPurevoice, "QualcommPurevoice", "Qualcomm PureVoice", Some("QCP"), "audio/qcelp", "qcp", Kind::Audio, "Audio"),
    e(QuiteOkAudio, "QuiteOkAudio", "Quite OK Audio", Some("QOA"), "audio/x-qoa", "qoa", Kind::Audio, "Audio"),
    e(QuiteOkImage, "QuiteOkImage", "Quite OK Image", Some("QOI"), "image/x-qoi", "qoi", Kind::Image, "Image"),
    e(RadianceHdr, "RadianceHdr", "Radiance HDR", Some("HDR"), "image/vnd.radiance", "hdr", Kind::Image, "Image"),
    e(Realaudio, "Realaudio", "RealAudio", Some("RA"), "audio/x-pn-realaudio", "ra", Kind::Audio, "Audio"),
    e(ReallySimpleSyndication, "ReallySimpleSyndication", "Really Simple Syndication", Some("RSS"), "application/rss+xml", "rss", Kind::Other, "Other"),
    e(Realmedia, "Realmedia", "RealMedia", Some("RM"), "application/vnd.rn-realmedia", "rm", Kind::Other, "Other"),
    e(Realvideo, "Realvideo", "RealVideo", Some("RV"), "video/x-pn-realvideo", "rv", Kind::Video, "Video"),
    e(RedHatPackageManager, "RedHatPackageManager", "Red Hat Package Manager", Some("RPM"), "application/x-rpm", "rpm", Kind::Package, "Package"),
    e(RichTextFormat, "RichTextFormat", "Rich Text Format", Some("RTF"), "application/rtf", "rtf", Kind::Document, "Document"),
    e(RoshalArchive, "RoshalArchive", "Roshal Archive", Some("RAR"), "application/vnd.rar", "rar", Kind::Archive, "Archive"),
    e(RubyScript, "RubyScript", "Ruby Script", None, "text/x-ruby", "rb", Kind::Other, "Other"),
    e(Rzip, "Rzip", "rzip", Some("RZ"), "application/x-rzip", "rz", Kind::Compressed, "Compressed"),
    e(ScalableVectorGraphics, "ScalableVectorGraphics", "Scalable Vector Graphics", Some("SVG"), "image/svg+xml", "svg", Kind::Image, "Image"),
    e(ScreamTracker3Module, "ScreamTracker3Module", "Scream Tracker 3 Module", Some("S3M"), "audio/x-s3m", "s3m", Kind::Audio, "Audio"),
    e(SegaMasterSystemRom, "SegaMasterSystemRom", "Sega Master System ROM", Some("SMS"), "application/x-sms-rom", "sms", Kind::Rom, "Rom"),
    e(Seqbox, "Seqbox", "SeqBox", Some("SBX"), "application/x-sbx", "sbx", Kind::Archive, "Archive"),
    e(SevenZip, "SevenZip", "7-Zip", Some("7Z"), "application/x-7z-compressed", "7z", Kind::Archive, "Archive"),
    e(Shapefile, "Shapefile", "Shapefile", Some("SHP"), "application/x-esri-shape", "shp", Kind::Geospatial, "Geospatial"),
    e(ShellScript, "ShellScript", "Shell Script", None, "text/x-shellscript", "sh", Kind::Other, "Other"),
    e(ShoutcastPlaylist, "ShoutcastPlaylist", "SHOUTcast Playlist", Some("PLS"), "audio/x-scpls", "pls", Kind::Playlist, "Playlist"),
    e(SiliconGraphicsImage, "SiliconGraphicsImage", "Silicon Graphics Image", Some("SGI"), "image/x-sgi", "sgi", Kind::Image, "Image"),
    e(SiliconGraphicsMovie, "SiliconGraphicsMovie", "Silicon Graphics Movie", Some("SGI"), "video/x-sgi-movie", "sgi", Kind::Video, "Video"),
    e(SimpleObjectAccessProtocol, "SimpleObjectAccessProtocol", "Simple Object Access Protocol", Some("SOAP"), "application/soap+xml", "soap", Kind::Other, "Other"),
    e(Sketch, "Sketch", "Sketch", None, "image/x-sketch", "sketch", Kind::Image, "Image"),
    e(Sketch43, "Sketch43", "Sketch 43", None, "image/x-sketch", "sketch", Kind::Image, "Image"),
    e(Sketchup, "Sketchup", "SketchUp", Some("SKP"), "application/vnd.sketchup.skp", "skp", Kind::Model, "Model"),
    e(SmallWebFormat, "SmallWebFormat", "Small Web Format", Some("SWF"), "application/x-shockwave-flash", "swf", Kind::Other, "Other"),
    e(Snappy, "Snappy", "Snappy", None, "application/x-snappy-framed", "sz", Kind::Compressed, "Compressed"),
    e(SolidworksAssembly, "SolidworksAssembly", "SolidWorks Assembly", Some("SLDASM"), "model/x-sldasm", "sldasm", Kind::Model, "Model"),
    e(SolidworksDrawing, "SolidworksDrawing", "SolidWorks Drawing", Some("SLDDRW"), "model/x-slddrw", "slddrw", Kind::Model, "Model"),
    e(SolidworksPart, "SolidworksPart", "SolidWorks Part", Some("SLDPRT"), "model/x-sldprt", "sldprt", Kind::Model, "Model"),
    e(SonyDsdStreamFile, "SonyDsdStreamFile", "Sony DSD Stream File", Some("DSF"), "audio/x-dsf", "dsf", Kind::Audio, "Audio"),
    e(SonyMovie, "SonyMovie", "Sony Movie", Some("MQV"), "video/quicktime", "mqv", Kind::Video, "Video"),
    e(Soundfont2, "Soundfont2", "SoundFont 2", Some("SF2"), "audio/x-soundfont", "sf2", Kind::Audio, "Audio"),
    e(SpaceclaimDocument, "SpaceclaimDocument", "SpaceClaim Document", Some("SCDOC"), "model/x-scdoc", "scdoc", Kind::Model, "Model"),
    e(Sqlite3, "Sqlite3", "SQLite 3", None, "application/vnd.sqlite3", "sqlite", Kind::Database, "Database"),
    e(Squashfs, "Squashfs", "Squashfs", None, "application/x-squashfs", "sqsh", Kind::Archive, "Archive"),
    e(StandardForTheExchangeOfProductModelData, "StandardForTheExchangeOfProductModelData", "Standard for the Exchange of Product model data", Some("STEP"), "model/step", "step", Kind::Model, "Model"),
    e(Starcalc, "Starcalc", "StarCalc", Some("SDC"), "application/vnd.stardivision.calc", "sdc", Kind::Spreadsheet, "Spreadsheet"),
    e(Starchart, "Starchart", "StarChart", Some("SDS"), "application/vnd.stardivision.chart", "sds", Kind::Diagram, "Diagram"),
    e(Stardraw, "Stardraw", "StarDraw", Some("SDA"), "application/vnd.stardivision.draw", "sda", Kind::Image, "Image"),
    e(Starimpress, "Starimpress", "StarImpress", Some("SDD"), "application/vnd.stardivision.impress", "sdd", Kind::Presentation, "Presentation"),
    e(Starmath, "Starmath", "StarMath", Some("SMF"), "application/vnd.stardivision.math", "smf", Kind::Formula, "Formula"),
    e(Starwriter, "Starwriter", "StarWriter", Some("SDW"), "application/vnd.stardivision.writer", "sdw", Kind::Document, "Document"),
    e(StereolithographyAscii, "StereolithographyAscii", "Stereolithography ASCII", Some("STL"), "model/x-stl-ascii", "stl", Kind::Model, "Model"),
    e(Stuffit, "Stuffit", "StuffIt", Some("SIT"), "application/x-stuffit", "sit", Kind::Archive, "Archive"),
    e(StuffitX, "StuffitX", "StuffIt X", Some("SITX"), "application/x-stuffitx", "sitx", Kind::Archive, "Archive"),
    e(SubripText, "SubripText", "SubRip Text", Some("SRT"), "application/x-subrip", "srt", Kind::Subtitle, "Subtitle"),
    e(SunXmlCalc, "SunXmlCalc", "Sun XML Calc", Some("SXC"), "application/vnd.sun.xml.calc", "sxc", Kind::Spreadsheet, "Spreadsheet"),
    e(SunXmlCalcTemplate, "SunXmlCalcTemplate", "Sun XML Calc Template", Some("STC"), "application/vnd.sun.xml.calc.template", "stc", Kind::Spreadsheet, "Spreadsheet"),
    e(SunXmlDraw, "SunXmlDraw", "Sun XML Draw", Some("SXD"), "application/vnd.sun.xml.draw", "sxd", Kind::Image, "Image"),
    e(SunXmlDrawTemplate, "SunXmlDrawTemplate", "Sun XML Draw Template", Some("STD"), "application/vnd.sun.xml.draw.template", "std", Kind::Image, "Image"),
    e(SunXmlImpress, "SunXmlImpress", "Sun XML Impress", Some("SXI"), "application/vnd.sun.xml.impress", "sxi", Kind::Presentation, "Presentation"),
    e(SunXmlImpressTemplate, "SunXmlImpressTemplate", "Sun XML Impress Template", Some("STI"), "application/vnd.sun.xml.impress.template", "sti", Kind::Presentation, "Presentation"),
    e(SunXmlMath, "SunXmlMath", "Sun XML Math", Some("SXM"), "application/vnd.sun.xml.math", "sxm", Kind::Formula, "Formula"),
    e(SunXmlWriter, "SunXmlWriter", "Sun XML Writer", Some("SXW"), "application/vnd.sun.xml.writer", "sxw", Kind::Document, "Document"),
    e(SunXmlWriterGlobal, "SunXmlWriterGlobal", "Sun XML Writer Global", Some("SGW"), "application/vnd.sun.xml.writer.global", "sgw", Kind::Document, "Document"),
    e(SunXmlWriterTemplate, "SunXmlWriterTemplate", "Sun XML Writer Template", Some("STW"), "application/vnd.sun.xml.writer.template", "stw", Kind::Document, "Document"),
    e(TagImageFileFormat, "TagImageFileFormat", "Tag Image File Format", Some("TIFF"), "image/tiff", "tiff", Kind::Image, "Image"),
    e(TapeArchive, "TapeArchive", "Tape Archive", Some("TAR"), "application/x-tar", "tar", Kind::Archive, "Archive"),
    e(Tasty, "Tasty", "TASTy", None, "application/x-tasty", "tasty", Kind::Metadata, "Metadata"),
    e(ThirdGenerationPartnershipProject, "ThirdGenerationPartnershipProject", "3rd Generation Partnership Project", Some("3GPP"), "video/3gpp", "3gp", Kind::Video, "Video"),
    e(ThirdGenerationPartnershipProject2, "ThirdGenerationPartnershipProject2", "3rd Generation Partnership Project 2", Some("3GPP2"), "video/3gpp2", "3g2", Kind::Video, "Video"),
    e(ThreeDimensionalManufacturingFormat, "ThreeDimensionalManufacturingFormat", "3D Manufacturing Format", Some("3MF"), "application/vnd.ms-package.3dmanufacturing-3dmodel+xml", "3mf", Kind::Model, "Model"),
    e(ThreeDimensionalStudio, "ThreeDimensionalStudio", "3D Studio", Some("3DS"), "application/x-3ds", "3ds", Kind::Model, "Model"),
    e(ThreeDimensionalStudioMax, "ThreeDimensionalStudioMax", "3D Studio Max", Some("MAX"), "application/x-max", "max", Kind::Model, "Model"),
    e(TiledMapXml, "TiledMapXml", "Tiled Map XML", Some("TMX"), "application/x-tmx+xml", "tmx", Kind::Other, "Other"),
    e(TiledTilesetXml, "TiledTilesetXml", "Tiled Tileset XML", Some("TSX"), "application/x-tsx+xml", "tsx", Kind::Other, "Other"),
    e(TimedTextMarkupLanguage, "TimedTextMarkupLanguage", "Timed Text Markup Language", Some("TTML"), "application/ttml+xml", "ttml", Kind::Subtitle, "Subtitle"),
    e(ToolCommandLanguageScript, "ToolCommandLanguageScript", "Tool Command Language Script", Some("Tcl Script"), "text/x-tcl", "tcl", Kind::Other, "Other"),
    e(TrainingCenterXml, "TrainingCenterXml", "Training Center XML", Some("TCX"), "application/vnd.garmin.tcx+xml", "tcx", Kind::Geospatial, "Geospatial"),
    e(Truetype, "Truetype", "TrueType", Some("TTF"), "font/ttf", "ttf", Kind::Font, "Font"),
    e(TruetypeCollection, "TruetypeCollection", "TrueType Collection", Some("TTC"), "font/collection", "ttc", Kind::Font, "Font"),
    e(UltimateSoundtrackerModule, "UltimateSoundtrackerModule", "Ultimate Soundtracker Module", Some("MOD"), "audio/x-mod", "mod", Kind::Audio, "Audio"),
    e(UniformOfficeFormatPresentation, "UniformOfficeFormatPresentation", "Uniform Office Format Presentation", Some("UOP"), "application/vnd.uof.presentation", "uop", Kind::Presentation, "Presentation"),
    e(UniformOfficeFormatSpreadsheet, "UniformOfficeFormatSpreadsheet", "Uniform Office Format Spreadsheet", Some("UOS"), "application/vnd.uof.spreadsheet", "uos", Kind::Spreadsheet, "Spreadsheet"),
    e(UniformOfficeFormatText, "UniformOfficeFormatText", "Uniform Office Format Text", Some("UOT"), "application/vnd.uof.text", "uot", Kind::Document, "Document"),
    e(Universal3d, "Universal3d", "Universal 3D", Some("U3D"), "model/u3d", "u3d", Kind::Model, "Model"),
    e(UniversalSceneDescriptionAscii, "UniversalSceneDescriptionAscii", "Universal Scene Description ASCII", Some("USDA"), "model/x-usd", "usda", Kind::Model, "Model"),
    e(UniversalSceneDescriptionBinary, "UniversalSceneDescriptionBinary", "Universal Scene Description Binary", Some("USDC"), "model/x-usd", "usdc", Kind::Model, "Model"),
    e(UniversalSceneDescriptionZip, "UniversalSceneDescriptionZip", "Universal Scene Description ZIP", Some("USDZ"), "model/vnd.usdz+zip", "usdz", Kind::Model, "Model"),
    e(UniversalSubtitleFormat, "UniversalSubtitleFormat", "Universal Subtitle Format", Some("USF"), "application/x-usf", "usf", Kind::Subtitle, "Subtitle"),
    e(UnixArchiver, "UnixArchiver", "UNIX archiver", Some("archiver"), "application/x-archive", "a", Kind::Archive, "Archive"),
    e(UnixCompress, "UnixCompress", "UNIX compress", Some("compress"), "application/x-compress", "Z", Kind::Compressed, "Compressed"),
    e(Vcalendar, "Vcalendar", "vCalendar", Some("VCS"), "text/calendar", "vcs", Kind::Other, "Other"),
    e(Vcard, "Vcard", "vCard", Some("VCF"), "text/vcard", "vcf", Kind::Other, "Other"),
    e(VirtualMachineDisk, "VirtualMachineDisk", "Virtual Machine Disk", Some("VMDK"), "application/x-vmdk", "vmdk", Kind::Disk, "Disk"),
    e(VirtualRealityModelingLanguage, "VirtualRealityModelingLanguage", "Virtual Reality Modeling Language", Some("VRML"), "model/vrml", "wrl", Kind::Model, "Model"),
    e(VirtualboxVirtualDiskImage, "VirtualboxVirtualDiskImage", "VirtualBox Virtual Disk Image", Some("VDI"), "application/x-virtualbox-vdi", "vdi", Kind::Disk, "Disk"),
    e(WaveformAudio, "WaveformAudio", "Waveform Audio", Some("WAV"), "audio/vnd.wave", "wav", Kind::Audio, "Audio"),
    e(Wavpack, "Wavpack", "WavPack", Some("WV"), "audio/wavpack", "wv", Kind::Audio, "Audio"),
    e(WebApplicationArchive, "WebApplicationArchive", "Web Application Archive", Some("WAR"), "application/java-archive", "war", Kind::Package, "Package"),
    e(WebOpenFontFormat, "WebOpenFontFormat", "Web Open Font Format", Some("WOFF"), "font/woff", "woff", Kind::Font, "Font"),
    e(WebOpenFontFormat2, "WebOpenFontFormat2", "Web Open Font Format 2", Some("WOFF2"), "font/woff2", "woff2", Kind::Font, "Font"),
    e(WebVideoTextTracks, "WebVideoTextTracks", "Web Video Text Tracks", Some("WebVTT"), "text/vtt", "vtt", Kind::Subtitle, "Subtitle"),
    e(WebassemblyBinary, "WebassemblyBinary", "WebAssembly Binary", Some("Wasm"), "application/wasm", "wasm", Kind::Executable, "Executable"),
    e(WebassemblyText, "WebassemblyText", "WebAssembly Text", Some("WAT"), "text/wasm", "wat", Kind::Other, "Other"),
    e(Webm, "Webm", "WebM", None, "video/webm", "webm", Kind::Video, "Video"),
    e(Webp, "Webp", "WebP", None, "image/webp", "webp", Kind::Image, "Image"),
    e(WindowsAnimatedCursor, "WindowsAnimatedCursor", "Windows Animated Cursor", Some("ANI"), "application/x-navi-animation", "ani", Kind::Image, "Image"),
    e(WindowsAppBundle, "WindowsAppBundle", "Windows App Bundle", Some("APPXBUNDLE"), "application/vnd.ms-appx.bundle", "appxbundle", Kind::Package, "Package"),
    e(WindowsAppPackage, "WindowsAppPackage", "Windows App Package", Some("APPX"), "application/vnd.ms-appx", "appx", Kind::Package, "Package"),
    e(WindowsBitmap, "WindowsBitmap", "Windows Bitmap", Some("BMP"), "image/bmp", "bmp", Kind::Image, "Image"),
    e(WindowsCursor, "WindowsCursor", "Windows Cursor", Some("CUR"), "image/x-icon", "cur", Kind::Image, "Image"),
    e(WindowsIcon, "WindowsIcon", "Windows Icon", Some("ICO"), "image/x-icon", "ico", Kind::Image, "Image"),
    e(WindowsImagingFormat, "WindowsImagingFormat", "Windows Imaging Format", Some("WIM"), "application/x-ms-wim", "wim", Kind::Archive, "Archive"),
    e(WindowsMediaAudio, "WindowsMediaAudio", "Windows Media Audio", Some("WMA"), "audio/x-ms-wma", "wma", Kind::Audio, "Audio"),
    e(WindowsMediaPlaylist, "WindowsMediaPlaylist", "Windows Media Playlist", Some("WPL"), "application/vnd.ms-wpl", "wpl", Kind::Playlist, "Playlist"),
    e(WindowsMediaVideo, "WindowsMediaVideo", "Windows Media Video", Some("WMV"), "video/x-ms-wmv", "wmv", Kind::Video, "Video"),
    e(WindowsMetafile, "WindowsMetafile", "Windows Metafile", Some("WMF"), "image/wmf", "wmf", Kind::Image, "Image"),
    e(WindowsRecordedTvShow, "WindowsRecordedTvShow", "Windows Recorded TV Show", Some("WTV"), "video/x-wtv", "wtv", Kind::Video, "Video"),
    e(WindowsShortcut, "WindowsShortcut", "Windows Shortcut", Some("LNK"), "application/x-ms-shortcut", "lnk", Kind::Metadata, "Metadata"),
    e(WordperfectDocument, "WordperfectDocument", "WordPerfect Document", Some("WPD"), "application/vnd.wordperfect", "wpd", Kind::Document, "Document"),
    e(WordperfectGraphics, "WordperfectGraphics", "WordPerfect Graphics", Some("WPG"), "application/vnd.wordperfect", "wpg", Kind::Image, "Image"),
    e(WordperfectMacro, "WordperfectMacro", "WordPerfect Macro", Some("WPM"), "application/vnd.wordperfect", "wpm", Kind::Other, "Other"),
    e(WordperfectPresentations, "WordperfectPresentations", "WordPerfect Presentations", Some("SHW"), "application/vnd.wordperfect", "shw", Kind::Presentation, "Presentation"),
    e(XPixmap, "XPixmap", "X PixMap", Some("XPM"), "image/x-xpixmap", "xpm", Kind::Image, "Image"),
    e(Xap, "Xap", "XAP", None, "application/x-silverlight-app", "xap", Kind::Package, "Package"),
    e(Xbox360Executable, "Xbox360Executable", "Xbox 360 Executable", Some("XEX"), "application/x-xbox360-executable", "xex", Kind::Executable, "Executable"),
    e(XboxExecutable, "XboxExecutable", "Xbox Executable", Some("XBE"), "application/x-xbox-executable", "xbe", Kind::Executable, "Executable"),
    e(XmlLocalizationInterchangeFileFormat, "XmlLocalizationInterchangeFileFormat", "XML Localization Interchange File Format", Some("XLIFF"), "application/xliff+xml", "xlf", Kind::Other, "Other"),
    e(XmlShareablePlaylistFormat, "XmlShareablePlaylistFormat", "XML Shareable Playlist Format", Some("XSPF"), "application/xspf+xml", "xspf", Kind::Playlist, "Playlist"),
    e(Xpinstall, "Xpinstall", "XPInstall", Some("XPI"), "application/x-xpinstall", "xpi", Kind::Package, "Package"),
    e(Xz, "Xz", "XZ", None, "application/x-xz", "xz", Kind::Compressed, "Compressed"),
    e(Zip, "Zip", "ZIP", None, "application/zip", "zip", Kind::Archive, "Archive"),
    e(Zoo, "Zoo", "zoo", None, "application/x-zoo", "zoo", Kind::Archive, "Archive"),
    e(Zpaq, "Zpaq", "ZPAQ", None, "application/x-zpaq", "zpaq", Kind::Archive, "Archive"),
    e(Zstandard, "Zstandard", "Zstandard", Some("zstd"), "application/zstd", "zst", Kind::Compressed, "Compressed"),
];
