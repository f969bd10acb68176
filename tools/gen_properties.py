#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/decoders/"; I="src/imageops/"
NOTEST="The existing tests never decode a file: they only rotate one 8x7 picture and run three CFA doc examples, so no "
p("C01","Decoding any bytes ends in an image or an error, never a crash or hang",
 "Decoding a path always returns either an image or an error, whatever the bytes of the file, however short or corrupt it is, and whatever I/O errors occur while opening or reading it; it never terminates or aborts the process, overflows the stack, exhausts memory on sizes claimed by the file, or runs without bound. Likewise rendering any image that decoding returned, at any requested maximum size, returns a rendering or an error. This holds in builds with and without integer overflow checks.",
 ["inputs","fault_sequences","configurations"],
 "every byte string as file content (truncations, corruptions and hostile structures of all supported formats), every failing open or read, checked and unchecked builds",
 NOTEST+"hostile input is ever tried; the input space is unbounded.",
 [D+"mod.rs",D+"tiff.rs",D+"ciff.rs",D+"basics.rs",D+"pumps.rs",D+"ljpeg/mod.rs",D+"image.rs"],
 [("panic containment","RawLoader::decode_safe in "+D+"mod.rs"),("16 bytes of padding after the file","Buffer::new in "+D+"mod.rs"),("IFD depth and count limits",D+"tiff.rs, "+D+"ciff.rs"),("size limit before allocation","alloc_image in "+D+"basics.rs"),("crop sanity check before rendering",D+"image.rs")],
 ["rawloader::decode return value","process exit status and CPU time of a worker process"])
p("C02","Every decoded image holds exactly width x height x cpp samples",
 "Whenever decoding succeeds, the pixel data has exactly width*height*cpp elements, whatever inconsistent sizes the file declares. Whenever a rendering succeeds, its data has exactly width*height*3 elements and neither dimension is zero.",
 ["inputs"],"every file, valid or corrupt, for which decode returns an image, and every rendering of those images",
 NOTEST+"decoded image exists to measure, and inconsistent headers are an unbounded input space.",
 [D+"image.rs",D+"basics.rs",D+"cr2.rs",D+"dng.rs",D+"nef.rs",D+"raf.rs"],
 [("buffers allocated from the same width and height that are returned",D+"basics.rs decode_threaded"),("consistency check of TIFF and ljpeg sizes",D+"cr2.rs")],
 ["RawImage.width/height/cpp/data","RGBImage and SRGBImage width/height/data"])
p("C03","Uncompressed raw data is unpacked to exactly the stored sample values",
 "For every supported uncompressed sample layout (8, 10, 12, 14 and 16 bit samples, packed or padded, either byte order, with control bytes, 16/32 bit word swapping, row padding, interlaced or skipped lines) the decoded image contains exactly the sample values stored in the file, each at its own row and column, for every image size the format allows.",
 ["inputs"],"all sample values and all image sizes, in every camera format that stores uncompressed samples",
 NOTEST+"unpacker is executed; position- and value-dependent errors need all bit positions, widths and rows.",
 [D+"packed.rs",D+"basics.rs",D+"mrw.rs",D+"mef.rs",D+"orf.rs",D+"erf.rs",D+"kdc.rs",D+"raf.rs",D+"rw2.rs",D+"pef.rs",D+"nef.rs",D+"nrw.rs",D+"dng.rs",D+"srw.rs",D+"arw.rs",D+"ari.rs",D+"nkd.rs",D+"iiq.rs",D+"mos.rs"],
 [("one unpacking function per layout",D+"packed.rs"),("row-parallel decoding",D+"basics.rs decode_threaded")],
 ["RawImage.data after rawloader decode of a generated file"])
p("C04","Lossless JPEG raw data is reconstructed bit-exactly",
 "For every lossless-JPEG compressed raw (CR2 including vertical slices and doubled lines, DNG single strip and tiled including partial edge tiles, Hasselblad, Leaf strips), the decoded image equals the image that was compressed, for every sample content, any valid Huffman tables, 2 to 4 components, and data containing 0xff bytes or 16-bit differences.",
 ["inputs"],"all images, component counts, precisions, Huffman tables, slice and tile geometries that the formats allow",
 NOTEST+"JPEG stream is decoded; correctness depends on bit alignment, code lengths, stuffing and predictor state accumulated over the image.",
 [D+"ljpeg/mod.rs",D+"ljpeg/huffman.rs",D+"ljpeg/decompressors.rs",D+"cr2.rs",D+"dng.rs",D+"tfr.rs",D+"mos.rs",D+"pumps.rs"],
 [("Huffman lookup with slow path fallback",D+"ljpeg/huffman.rs"),("bit pump with byte unstuffing",D+"pumps.rs BitPumpJPEG"),("per component predictors",D+"ljpeg/decompressors.rs")],
 ["RawImage.data after decode of a generated file"])
p("C05","Vendor-specific lossless compression is reconstructed bit-exactly",
 "For raws in the vendor lossless encodings (Sony ARW1, Pentax PEF, Olympus ORF, Samsung SRW 1/2/3, Panasonic RW2, Phase One IIQ, Canon CRW) the decoded image equals the image that was encoded, for every sample content and every image size the encoding supports. State carried by a codec (predictors, carries, bit positions, per-row offsets, block boundaries) never leaks errors between samples, rows or blocks.",
 ["inputs"],"all images and code choices each vendor encoding can represent",
 NOTEST+"vendor codec is executed; their adaptive state makes errors depend on long specific sample histories.",
 [D+"arw.rs",D+"nef.rs",D+"pef.rs",D+"orf.rs",D+"srw.rs",D+"rw2.rs",D+"iiq.rs",D+"crw.rs",D+"dcr.rs",D+"pumps.rs"],
 [("one decompressor per vendor format",D+"<format>.rs"),("bit pumps",D+"pumps.rs")],
 ["RawImage.data after decode of a generated file"])
p("C06","Curve-coded raw data is linearised by its curve and fixed-seed dither",
 "For raws whose samples index a tone curve (Sony ARW2, Nikon compressed NEF with lossy or lossless tables and with or without a split, Kodak DCS and DCR, 8-bit DNG, Canon D2000) every output sample is the curve value of the stored code spread by the deterministic dither of at most a quarter of the distance to the neighbouring curve points around it. The output is exactly reproducible from the file alone, and a flat curve segment gives the exact curve value.",
 ["inputs"],"all curves, stored codes and images in the curve-coded formats",
 NOTEST+"curve-coded file is decoded; the dither state depends on the whole preceding row or image.",
 [D+"basics.rs",D+"arw.rs",D+"nef.rs",D+"dcs.rs",D+"dcr.rs",D+"dng.rs",D+"cr2.rs",D+"packed.rs"],
 [("lookup table with base and delta","LookupTable in "+D+"basics.rs"),("linear congruential dither seeded from the data","LookupTable::dither")],
 ["RawImage.data after decode of a generated file"])
p("C07","Reduced-size YCbCr raws decode to the RGB image they encode",
 "Canon sRAW/mRAW (4:2:2 and 4:2:0) and Nikon small NEF files decode to 3-component images where each pixel is the RGB conversion of its own luma with the chroma stored for its block of pixels, scaled by the file's white balance and clamped to the 16-bit range. Luma is never mixed between pixels, the images carry no black level, and Canon ones no crop.",
 ["inputs"],"all luma and chroma values, sizes, slicings and white balances of the reduced-size formats",
 NOTEST+"subsampled file is decoded; addressing and clamping errors depend on position and value.",
 [D+"cr2.rs",D+"nef.rs",D+"ljpeg/decompressors.rs",D+"basics.rs"],
 [("420 and 422 decoding",D+"ljpeg/decompressors.rs"),("YUV to RGB conversion",D+"cr2.rs convert_to_rgb, "+D+"nef.rs decode_snef_compressed")],
 ["RawImage.data/cpp/width/height/levels/crops"])
p("C08","As-shot white balance is the one stored in the file, in RGBE order",
 "For every format and camera whose file stores a white balance, including encrypted or obfuscated ones, the decoded coefficients are the stored multipliers of red, green, blue and (only where present) emerald, in that order and up to the scale documented by the format. Where the file stores none, the coefficients are not usable numbers, so that rendering falls back to a neutral balance.",
 ["inputs"],"every camera, every stored multiplier value and every way the formats store it",
 NOTEST+"metadata is ever read.",
 [D+"arw.rs",D+"cr2.rs",D+"crw.rs",D+"nef.rs",D+"nrw.rs",D+"orf.rs",D+"pef.rs",D+"raf.rs",D+"rw2.rs",D+"srw.rs",D+"mrw.rs",D+"dng.rs",D+"dcr.rs",D+"dcs.rs",D+"erf.rs",D+"iiq.rs",D+"kdc.rs",D+"mef.rs",D+"mos.rs",D+"tfr.rs",D+"ari.rs"],
 [("get_wb of each decoder",D+"<format>.rs"),("Sony and Nikon decryption",D+"arw.rs sony_decrypt, "+D+"nef.rs")],
 ["RawImage.wb_coeffs"])
p("C09","Each supported camera, alias and mode gets its own calibration data",
 "A file is decoded with the calibration of exactly the camera named in it: the clean make and model, white and black levels, colour matrix, colour filter pattern, crops and decoding quirks listed in the camera database for that make, model (or alias) and shooting mode, with values a mode does not override inherited from the camera. A make/model/mode combination that the database does not list is reported as an error and never decoded with another camera's data.",
 ["inputs","configurations"],"every camera, alias and mode in the database, and every name that is not in it",
 NOTEST+"camera lookup is made; there are several hundred entries with inheritance and aliases.",
 [D+"mod.rs","data/cameras","data/join.rs",D+"image.rs",D+"rw2.rs",D+"nef.rs"],
 [("camera table built from the embedded database","RawLoader::new in "+D+"mod.rs"),("exact make, model, mode lookup","RawLoader::check_supported_with_everything")],
 ["RawImage metadata fields","RawLoader.cameras (public)"],
 [("cameras","map from make, model and mode to calibration",D+"mod.rs RawLoader")])
p("C10","Levels, crops, matrix and orientation stored in the file are honoured",
 "Where the file itself carries calibration it is what the image reports: black levels measured as the per-colour mean of the sensor's masked rows and columns, and the black level, white level, colour matrix, colour filter pattern, active-area crop and orientation recorded in DNG, Panasonic, Sony, Pentax, Nikon and other formats. Values absent from the file fall back to the camera's defaults.",
 ["inputs"],"every stored level, area content, matrix, pattern, crop and orientation in every format that stores them",
 NOTEST+"file with metadata is decoded.",
 [D+"image.rs",D+"dng.rs",D+"rw2.rs",D+"pef.rs",D+"srw.rs",D+"mod.rs",D+"iiq.rs",D+"nef.rs"],
 [("masked area averages","RawImage::new in "+D+"image.rs"),("DNG tag readers",D+"dng.rs"),("orientation tag","Orientation::from_tiff in "+D+"mod.rs")],
 ["RawImage.blacklevels/whitelevels/crops/xyz_to_cam/cfa/orientation"])
p("C11","A file's format is recognised from its content alone",
 "Which decoder handles a file depends only on its content: the magic numbers, the TIFF make, model, DNG version and software tags, and as a last resort the exact file size for headerless sensor dumps, in that precedence. The file's name or extension, and how the reader delivers the bytes, never matter; content that matches nothing gives an error.",
 ["inputs"],"every format signature, make, file name, and size around the headerless ones",
 NOTEST+"file is identified.",
 [D+"mod.rs",D+"nkd.rs",D+"mrw.rs",D+"ciff.rs",D+"ari.rs",D+"x3f.rs",D+"tiff.rs"],
 [("ordered dispatch","RawLoader::get_decoder in "+D+"mod.rs")],
 ["decode result for generated files"])
p("C12","Decoding does not depend on how the container is laid out",
 "Two files that hold the same tags and the same image data decode to the same image, whatever the byte order of the container, the position of directories and values in the file, unknown tags, padding between blocks, or bytes after the end.",
 ["inputs"],"all equivalent layouts of the same content",
 NOTEST+"container is parsed; the equivalent layouts of one file are unbounded.",
 [D+"tiff.rs",D+"ciff.rs",D+"mrw.rs",D+"mod.rs"],
 [("endian-aware tag reads","TiffEntry in "+D+"tiff.rs"),("tag search over all directories","TiffIFD::find_entry")],
 ["RawImage of pairs of equivalent files"])
p("C13","Decoding and rendering are deterministic, pure and thread-safe",
 "The image decoded from given bytes, and every rendering of it, is always the same: independent of the number of worker threads, of other decodes and renderings running at the same time, of what was decoded (or failed to decode) before in the process, and of how the input is chunked or interrupted by the reader. Decoding does not modify the file and rendering does not modify the image.",
 ["schedules","histories","inputs"],"all thread counts, interleavings of concurrent calls, call histories and reader behaviours",
 NOTEST+"parallel code runs under more than one schedule, and nothing runs concurrently.",
 ["src/lib.rs",D+"mod.rs",D+"basics.rs",I+"mod.rs",I+"transform.rs"],
 [("shared immutable loader","LOADER in src/lib.rs"),("disjoint parallel row chunks",D+"basics.rs, "+I+"mod.rs"),("per-row or per-image dither seeds",D+"packed.rs, "+D+"arw.rs")],
 ["digests of results collected over threads and histories"])
p("C14","Colour filter patterns obey their algebra",
 "A colour filter pattern reports for every position the colour of the pattern repeated over the plane; shifting it by (x,y) gives the pattern whose colour at (row,col) is the original's at (row+y,col+x), shifts compose and are periodic, and validity means a non-empty pattern. The pattern after cropping describes the colours of the cropped image.",
 ["inputs"],"all supported patterns, positions and shifts",
 "Three doc examples check a handful of positions of one or two patterns.",
 [D+"cfa.rs",D+"image.rs"],
 [("pattern parsing and shift",D+"cfa.rs"),("cropped pattern","RawImage::cropped_cfa")],
 ["CFA::new/color_at/shift/is_valid/name/width/height","RawImage::cropped_cfa"])
p("C15","Renderings respect the requested maximum size",
 "A rendering never exceeds the requested maximum width and height as seen after orientation, never upscales, keeps the aspect ratio of the cropped image to within one pixel, and, when it has to shrink, fills one of the two limits exactly. A limit of zero gives the full cropped size.",
 ["inputs"],"all image sizes, crops, orientations, colour layouts and requested limits",
 NOTEST+"rendering is made.",
 [I+"demosaic.rs",I+"mod.rs",I+"gofloat.rs",D+"image.rs"],
 [("scale selection","demosaic_and_scale in "+I+"demosaic.rs"),("swap of limits for rotated images","decoder in "+I+"mod.rs")],
 ["width and height of to_rgb, to_srgb and to_linear_rgb results"])
p("C16","Renderings are oriented upright as the metadata says",
 "Rendering an image with each of the eight orientations gives exactly the pixels of the unrotated rendering, moved as that orientation prescribes (1 normal to 8 rotated), for every image size and for scaled renderings with the limits swapped accordingly; an unknown orientation renders unrotated.",
 ["inputs"],"all orientations, sizes, contents and limits",
 "The existing tests rotate one fixed 8x7 picture through the internal helper only; sizes, rendering path and limits are not covered.",
 [I+"transform.rs",I+"mod.rs",D+"mod.rs"],
 [("flips and transposition",I+"transform.rs"),("orientation to flips","Orientation::to_flips in "+D+"mod.rs")],
 ["pixels of renderings"])
p("C17","Full-size rendering follows the documented processing pipeline",
 "At full size every output pixel is the result of cropping, demosaicing by averaging each missing colour over the 3x3 neighbourhood while keeping measured samples, subtracting black and dividing by the white range, applying the as-shot (or neutral) white balance relative to green with clipping at white, converting camera colour to Lab, applying the fixed base curve to lightness, and converting to linear or gamma-encoded Rec.709. Each pixel depends only on its own neighbourhood and the metadata.",
 ["inputs"],"all images, patterns, levels, white balances and matrices",
 NOTEST+"pixel is ever rendered.",
 [I+"gofloat.rs",I+"demosaic.rs",I+"level.rs",I+"colorspaces.rs",I+"curves.rs",I+"gamma.rs",I+"mod.rs"],
 [("pipeline","decoder in "+I+"mod.rs")],
 ["to_rgb and to_linear_rgb pixels compared with an independent double-precision model"])
p("C18","Downscaled rendering averages exactly the area each pixel covers",
 "When a rendering is scaled down, the camera values of each output pixel are, per colour, the area-weighted mean of the source samples (of the sensor when shrinking by at least the pattern's block, else of the demosaiced image) inside the rectangle that the pixel covers, and the rectangles tile the whole cropped image. No part of the image is dropped, repeated or replaced by black.",
 ["inputs"],"all sizes, scale factors, patterns and contents",
 NOTEST+"scaled rendering is made.",
 [I+"demosaic.rs"],
 [("block averaging","scaled and scale_down in "+I+"demosaic.rs")],
 ["to_linear_rgb pixels compared with an independent double-precision model"])
p("C19","The output variants agree, stay in range and tolerate odd metadata",
 "For the same image and limits the 8-bit output is the gamma-encoded output times 255 truncated, and the gamma-encoded output is the Rec.709 transfer curve of the linear output clamped to [0,1]; all have the same size. The gamma-encoded output is always a number in [0,1], also for degenerate levels, white balances and colour matrices (zero, equal, inverted, infinite or not a number).",
 ["inputs"],"all images and all metadata values, including degenerate ones",
 NOTEST+"output variant is produced.",
 [D+"image.rs",I+"gamma.rs",I+"level.rs",I+"mod.rs"],
 [("gamma table with clamped index",I+"gamma.rs"),("quantisation","to_srgb in "+D+"image.rs"),("fallback for unusable white balances",I+"level.rs")],
 ["to_rgb, to_srgb and to_linear_rgb results"])
p("C20","Camera-to-XYZ and neutral balance are the inverse of the stored matrix",
 "For every camera matrix of full rank the camera-to-XYZ matrix maps the camera's white-balanced response back to XYZ: composed with the white-normalised camera matrix it is the identity on RGB (least squares for four colours), scaled by the reference white. The neutral white balance is the reciprocal of the camera's response to white relative to green.",
 ["inputs"],"all full-rank three and four colour matrices, including those of every camera in the database",
 NOTEST+"matrix is inverted.",
 [D+"image.rs"],
 [("pseudo-inverse","RawImage::xyz_matrix_and_neutralwb in "+D+"image.rs")],
 ["RawImage::cam_to_xyz and neutralwb"])
p("C21","The command line tool writes the rendering or fails visibly",
 "The command line tool exits with status 0 only after it has completely written a valid binary PPM with the full-size 8-bit rendering of the given file, to the given output name or the input name with .ppm appended. On missing arguments, undecodable input, or any failure to create or write the output it exits with a non-zero status, and it never modifies an input file that is not also named as the output.",
 ["inputs","fault_sequences","configurations"],"all input files, argument forms and write failures",
 NOTEST+"binary is ever run.",
 ["src/bin/rawloader.rs"],
 [("exit codes and error reports","usage, error and main in src/bin/rawloader.rs"),("explicit flush","main in src/bin/rawloader.rs")],
 ["exit status, stdout and files left by the process"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
