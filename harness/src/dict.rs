//! EXIF 2.32 / TIFF 6.0 tag table: (name, number, format code, fixed component count (0 = any), writable, group 0=GENERIC 1=EXIF 2=INTEROP 3=GPS)
pub const DICT: &[(&str, u16, u16, u32, bool, u8)] = &[
    ("GPSVersionID", 0x0000, 1, 4, true, 3),
    ("GPSLatitudeRef", 0x0001, 2, 2, true, 3),
    ("GPSLatitude", 0x0002, 5, 3, true, 3),
    ("GPSLongitudeRef", 0x0003, 2, 2, true, 3),
    ("GPSLongitude", 0x0004, 5, 3, true, 3),
    ("GPSAltitudeRef", 0x0005, 1, 1, true, 3),
    ("GPSAltitude", 0x0006, 5, 1, true, 3),
    ("GPSTimeStamp", 0x0007, 5, 3, true, 3),
    ("GPSSatellites", 0x0008, 2, 0, true, 3),
    ("GPSStatus", 0x0009, 2, 2, true, 3),
    ("GPSMeasureMode", 0x000a, 2, 2, true, 3),
    ("GPSDOP", 0x000b, 5, 1, true, 3),
    ("GPSSpeedRef", 0x000c, 2, 2, true, 3),
    ("GPSSpeed", 0x000d, 5, 1, true, 3),
    ("GPSTrackRef", 0x000e, 2, 2, true, 3),
    ("GPSTrack", 0x000f, 5, 1, true, 3),
    ("GPSImgDirectionRef", 0x0010, 2, 2, true, 3),
    ("GPSImgDirection", 0x0011, 5, 1, true, 3),
    ("GPSMapDatum", 0x0012, 2, 0, true, 3),
    ("GPSDestLatitudeRef", 0x0013, 2, 2, true, 3),
    ("GPSDestLatitude", 0x0014, 5, 3, true, 3),
    ("GPSDestLongitudeRef", 0x0015, 2, 2, true, 3),
    ("GPSDestLongitude", 0x0016, 5, 3, true, 3),
    ("GPSDestBearingRef", 0x0017, 2, 2, true, 3),
    ("GPSDestBearing", 0x0018, 5, 1, true, 3),
    ("GPSDestDistanceRef", 0x0019, 2, 2, true, 3),
    ("GPSDestDistance", 0x001a, 5, 1, true, 3),
    ("GPSProcessingMethod", 0x001b, 7, 0, true, 3),
    ("GPSAreaInformation", 0x001c, 7, 0, true, 3),
    ("GPSDateStamp", 0x001d, 2, 11, true, 3),
    ("GPSDifferential", 0x001e, 3, 1, true, 3),
    ("GPSHPositioningError", 0x001f, 5, 1, true, 3),
    ("InteroperabilityIndex", 0x0001, 2, 4, true, 2),
    ("InteroperabilityVersion", 0x0002, 7, 0, true, 2),
    ("ImageWidth", 0x0100, 4, 1, true, 0),
    ("ImageHeight", 0x0101, 4, 1, true, 0),
    ("BitsPerSample", 0x0102, 3, 3, true, 0),
    ("Compression", 0x0103, 3, 1, true, 0),
    ("PhotometricInterpretation", 0x0106, 3, 1, true, 0),
    ("CellWidth", 0x0108, 3, 1, true, 0),
    ("CellHeight", 0x0109, 3, 1, true, 0),
    ("ImageDescription", 0x010e, 2, 0, true, 0),
    ("Make", 0x010f, 2, 0, true, 0),
    ("Model", 0x0110, 2, 0, true, 0),
    ("Orientation", 0x0112, 3, 1, true, 0),
    ("SamplesPerPixel", 0x0115, 3, 1, true, 0),
    ("RowsPerStrip", 0x0116, 4, 1, true, 0),
    ("XResolution", 0x011a, 5, 1, true, 0),
    ("YResolution", 0x011b, 5, 1, true, 0),
    ("PlanarConfiguration", 0x011c, 3, 1, true, 0),
    ("ResolutionUnit", 0x0128, 3, 1, true, 0),
    ("TransferFunction", 0x012d, 3, 768, true, 0),
    ("Software", 0x0131, 2, 0, true, 0),
    ("ModifyDate", 0x0132, 2, 20, true, 0),
    ("Artist", 0x013b, 2, 0, true, 0),
    ("WhitePoint", 0x013e, 5, 2, true, 0),
    ("PrimaryChromaticities", 0x013f, 5, 6, true, 0),
    ("ColorMap", 0x0140, 3, 0, true, 0),
    ("YCbCrCoefficients", 0x0211, 5, 3, true, 0),
    ("YCbCrSubSampling", 0x0212, 3, 2, true, 0),
    ("YCbCrPositioning", 0x0213, 3, 1, true, 0),
    ("ReferenceBlackWhite", 0x0214, 5, 6, true, 0),
    ("Copyright", 0x8298, 2, 0, true, 0),
    ("ExposureTime", 0x829a, 5, 1, true, 1),
    ("FNumber", 0x829d, 5, 1, true, 1),
    ("ExifOffset", 0x8769, 4, 1, false, 0),
    ("ExposureProgram", 0x8822, 3, 1, true, 1),
    ("SpectralSensitivity", 0x8824, 2, 0, true, 1),
    ("GPSInfo", 0x8825, 4, 1, true, 0),
    ("ISO", 0x8827, 3, 0, true, 1),
    ("OECF", 0x8828, 7, 0, false, 1),
    ("SensitivityType", 0x8830, 3, 1, true, 1),
    ("StandardOutputSensitivity", 0x8831, 4, 1, true, 1),
    ("RecommendedExposureIndex", 0x8832, 4, 1, true, 1),
    ("ISOSpeed", 0x8833, 4, 1, true, 1),
    ("ISOSpeedLatitudeyyy", 0x8834, 4, 1, true, 1),
    ("ISOSpeedLatitudezzz", 0x8835, 4, 1, true, 1),
    ("ExifVersion", 0x9000, 7, 4, true, 1),
    ("DateTimeOriginal", 0x9003, 2, 20, true, 1),
    ("CreateDate", 0x9004, 2, 20, true, 1),
    ("OffsetTime", 0x9010, 2, 0, true, 1),
    ("OffsetTimeOriginal", 0x9011, 2, 0, true, 1),
    ("OffsetTimeDigitized", 0x9012, 2, 0, true, 1),
    ("ComponentsConfiguration", 0x9101, 7, 0, true, 1),
    ("CompressedBitsPerPixel", 0x9102, 5, 1, true, 1),
    ("ShutterSpeedValue", 0x9201, 10, 1, true, 1),
    ("ApertureValue", 0x9202, 5, 1, true, 1),
    ("BrightnessValue", 0x9203, 10, 1, true, 1),
    ("ExposureCompensation", 0x9204, 10, 1, true, 1),
    ("MaxApertureValue", 0x9205, 5, 1, true, 1),
    ("SubjectDistance", 0x9206, 5, 1, true, 1),
    ("MeteringMode", 0x9207, 3, 1, true, 1),
    ("LightSource", 0x9208, 3, 1, true, 1),
    ("Flash", 0x9209, 3, 1, true, 1),
    ("FocalLength", 0x920a, 5, 1, true, 1),
    ("SubjectArea", 0x9214, 3, 4, true, 1),
    ("MakerNote", 0x927c, 7, 0, true, 1),
    ("UserComment", 0x9286, 7, 0, true, 1),
    ("SubSecTime", 0x9290, 2, 0, true, 1),
    ("SubSecTimeOriginal", 0x9291, 2, 0, true, 1),
    ("SubSecTimeDigitized", 0x9292, 2, 0, true, 1),
    ("AmbientTemperature", 0x9400, 10, 1, true, 1),
    ("Humidity", 0x9401, 5, 1, true, 1),
    ("Pressure", 0x9402, 5, 1, true, 1),
    ("WaterDepth", 0x9403, 10, 1, true, 1),
    ("Acceleration", 0x9404, 5, 1, true, 1),
    ("CameraElevationAngle", 0x9405, 10, 1, true, 1),
    ("FlashpixVersion", 0xa000, 7, 4, true, 1),
    ("ColorSpace", 0xa001, 3, 1, true, 1),
    ("ExifImageWidth", 0xa002, 4, 1, true, 1),
    ("ExifImageHeight", 0xa003, 4, 1, true, 1),
    ("RelatedSoundFile", 0xa004, 2, 0, true, 1),
    ("InteropOffset", 0xa005, 4, 1, true, 1),
    ("FlashEnergy", 0xa20b, 5, 1, true, 1),
    ("SpatialFrequencyResponse", 0xa20c, 7, 0, false, 1),
    ("FocalPlaneXResolution", 0xa20e, 5, 1, true, 1),
    ("FocalPlaneYResolution", 0xa20f, 5, 1, true, 1),
    ("FocalPlaneResolutionUnit", 0xa210, 3, 1, true, 1),
    ("SubjectLocation", 0xa214, 3, 2, true, 1),
    ("ExposureIndex", 0xa215, 5, 1, true, 1),
    ("SensingMethod", 0xa217, 3, 1, true, 1),
    ("FileSource", 0xa300, 7, 0, true, 1),
    ("SceneType", 0xa301, 7, 0, true, 1),
    ("CFAPattern", 0xa302, 7, 0, true, 1),
    ("CustomRendered", 0xa401, 3, 1, true, 1),
    ("ExposureMode", 0xa402, 3, 1, true, 1),
    ("WhiteBalance", 0xa403, 3, 1, true, 1),
    ("DigitalZoomRatio", 0xa404, 5, 1, true, 1),
    ("FocalLengthIn35mmFormat", 0xa405, 3, 1, true, 1),
    ("SceneCaptureType", 0xa406, 3, 1, true, 1),
    ("GainControl", 0xa407, 3, 1, true, 1),
    ("Contrast", 0xa408, 3, 1, true, 1),
    ("Saturation", 0xa409, 3, 1, true, 1),
    ("Sharpness", 0xa40a, 3, 1, true, 1),
    ("DeviceSettingDescription", 0xa40b, 7, 0, false, 1),
    ("SubjectDistanceRange", 0xa40c, 3, 1, true, 1),
    ("ImageUniqueID", 0xa420, 2, 0, true, 1),
    ("OwnerName", 0xa430, 2, 0, true, 1),
    ("SerialNumber", 0xa431, 2, 0, true, 1),
    ("LensInfo", 0xa432, 5, 4, true, 1),
    ("LensMake", 0xa433, 2, 0, true, 1),
    ("LensModel", 0xa434, 2, 0, true, 1),
    ("LensSerialNumber", 0xa435, 2, 0, true, 1),
    ("CompositeImage", 0xa460, 3, 1, true, 1),
    ("CompositeImageCount", 0xa461, 3, 2, true, 1),
    ("CompositeImageExposureTimes", 0xa462, 7, 0, true, 1),
    ("Gamma", 0xa500, 5, 1, true, 1),
];
