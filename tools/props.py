EXACT = "Random exploration against an independent model of the AV1 specification; a fault outside the drawn distribution would be missed. Trusts the model, written from the syntax tables and not from the code."
OB = "differential runtime monitor: "

prop("B01", "Descriptor values and stream position are exact",
     "Reading any sequence of bitstream descriptors (fixed-width, signed, non-symmetric, little-endian, LEB128, variable-length, bit) from any starting bit position yields exactly the values the AV1 descriptor definitions give, and the position advances by exactly the bits each descriptor occupies. The input bytes are never modified and what was read before does not affect later reads.",
     ["inputs", "histories"], "all byte strings, all start positions, all sequences of descriptor reads",
     "TestF and TestReadbit read one byte's bits and one fixed-width value; values, widths, offsets and sequences are unbounded.",
     ["bitstream/bitstream.go"], [("descriptor readers", "bitstream/bitstream.go")],
     OB + "random descriptor histories replayed on a big-integer bit cursor", EXACT,
     state=[("Position", "next bit to read", "bitstream/bitstream.go")])

prop("B02", "A stream that ends early is reported, never read as if it had more bits",
     "When the bits a read or a header needs are not there, the decoder stops with an ordinary error (a recoverable panic) instead of inventing bits, hanging, exhausting memory or crashing the process. Everything that lies completely inside the stream before that point still decodes normally, and arbitrary bytes never make a header parser run without end.",
     ["inputs", "fault_sequences"], "every truncation point of every input, and arbitrary bytes",
     "No test truncates anything; the number of truncation points and malformed inputs is unbounded.",
     ["bitstream/bitstream.go", "sequenceheader/sequence_header.go", "uncompressedheader/uncompressed_header.go", "obu/obu.go"],
     [("bounds of the byte slice", "bitstream/bitstream.go")],
     OB + "truncation and garbage injection with a termination watchdog", EXACT)

prop("H01", "OBU headers decode bit-exactly",
     "For every OBU header byte, with every extension byte where the extension flag is set, at every bit position, the decoder reports exactly the type, extension flag, size flag, temporal id and spatial id coded and consumes exactly one or two bytes.",
     ["inputs"], "all 65536 pairs of header and extension byte at all 8 bit offsets, complete",
     "The tests decode two header examples.", ["header/header.go"], [("NewHeader", "header/header.go")],
     OB + "exhaustive header monitor", "Complete over the finite domain.")

prop("O01", "OBU framing: every unit is found, sized and left exactly at its end",
     "Decoding a length-delimited (Annex B) stream of temporal units, frame units and OBUs yields exactly the OBUs present, in order, with the coded type, extension and payload size, whether or not the OBU carries its own size field. Decoding leaves the position exactly at the end of every OBU and of the stream, whatever trailing bits, padding, metadata or reserved types are present.",
     ["inputs", "histories"], "all conforming streams, OBU types, sizes, LEB128 encodings and size-field combinations",
     "No test decodes more than single headers (the parser test needs a file that is absent).",
     ["parser/parser.go", "obu/obu.go", "header/header.go", "bitstream/bitstream.go"],
     [("temporal_unit/frame_unit loops", "parser/parser.go"), ("NewObu", "obu/obu.go")],
     OB + "generated streams decoded whole, unit trace compared with the generator's", EXACT)

prop("O02", "Layer selection: exactly the OBUs of the operating point are decoded",
     "With an operating point that names temporal and spatial layers, OBUs with an extension outside those layers are skipped by their size without any effect on decoder state, and all others (including those without extension, sequence headers and temporal delimiters) are decoded. With an operating point that names no layers nothing is dropped.",
     ["inputs", "configurations"], "all operating point masks, layer ids, OBU types and orders",
     "No test contains an extension with an operating point.", ["obu/obu.go", "sequenceheader/sequence_header.go"],
     [("drop decision", "obu/obu.go"), ("operating point choice", "sequenceheader/sequence_header.go")],
     OB + "scalable streams decoded whole against a layer model", EXACT)

prop("O03", "Frame headers persist, repeat and reset as OBUs arrive",
     "Redundant frame headers and tile groups following a frame header use that header unchanged, a temporal delimiter or a finished frame ends it, and the next frame header is decoded anew. Sequence headers stay in force, and reference validity and order hints carry from frame to frame, until replaced.",
     ["histories", "inputs"], "all orders of sequence headers, frame headers, copies, frames, tile groups and delimiters",
     "State carried between OBUs is a property of histories; no test decodes two OBUs with one state.",
     ["obu/obu.go", "parser/parser.go", "uncompressedheader/uncompressed_header.go", "state/state.go"],
     [("seen_frame_header handling", "obu/obu.go"), ("reference update", "obu/obu.go")],
     OB + "random OBU histories with a reference-state model", EXACT)

prop("S01", "Sequence headers decode exactly",
     "For every conforming sequence header, at any bit position, the decoder reports exactly the coded profile, still picture flags, frame size limits, frame id lengths, superblock size, tool enables, screen content and integer motion vector choices, order hint length and film grain flag, with the values the specification implies for elements not coded, and consumes exactly its bits.",
     ["inputs"], "all conforming sequence headers (including reduced still picture headers), all bit offsets",
     "No existing test parses a sequence header.", ["sequenceheader/sequence_header.go"],
     [("NewSequenceHeader", "sequenceheader/sequence_header.go")],
     OB + "syntax-table generator and field comparison", EXACT)

prop("S02", "Operating points, timing and decoder model information decode exactly",
     "For every conforming sequence header the list of operating points (layer mask, level, tier, decoder model and initial display delay parameters), the timing information and the decoder model lengths are exactly those coded, and the operating point chosen is the first.",
     ["inputs"], "all conforming sequence headers with 1 to 32 operating points and all timing/decoder model combinations",
     "No existing test parses a sequence header.", ["sequenceheader/sequence_header.go"],
     [("operating point loop", "sequenceheader/sequence_header.go"), ("timing and decoder model info", "sequenceheader/sequence_header.go")],
     OB + "syntax-table generator and field comparison", EXACT)

prop("S03", "Colour configuration decodes exactly",
     "For every profile and every coded combination, bit depth, monochrome, number of planes, colour description, range, chroma subsampling, sample position and separate chroma quantisation are exactly those coded or implied (including the sRGB identity triple), and exactly the coded bits are consumed.",
     ["inputs"], "all profiles and flag combinations, all values of the three colour codes",
     "No existing test parses a colour configuration.", ["sequenceheader/sequence_header.go"],
     [("NewColorConfig", "sequenceheader/sequence_header.go")],
     OB + "generator plus enumeration of all flag combinations", EXACT)

FH = ["uncompressedheader/uncompressed_header.go"]
prop("F01", "Frame headers: general elements and derived values are exact",
     "For every conforming frame header the frame type, show flags, error resilience, CDF update flags, screen content and integer motion vector choices, frame ids, order hints, primary reference, buffer removal times, refresh flags and reference order hints are exactly those coded or implied, and exactly the header's bits are consumed. This holds for show-existing-frame headers too, and whatever the decoder decoded before.",
     ["inputs", "histories"], "all conforming frame headers for all sequence headers, layer ids and reference states, all bit offsets",
     "The header tests cover helper functions on fixed values, none parses a full header.", FH,
     [("UncompressedHeader", FH[0])], OB + "syntax-table generator over random sequence headers and reference states", EXACT)
prop("F02", "Frame dimensions are exact",
     "For every frame header that codes its size or takes it from a reference frame, the frame width and height, upscaled width, super-resolution denominator, render size, frame size in 4x4 units and the intra block copy permission are exactly the coded or derived ones.",
     ["inputs"], "all sizes 1 to 65536, all super-resolution denominators, overrides and defaults",
     "No test parses a frame size.", FH, [("frame_size, superres_params, compute_image_size, render_size", FH[0])],
     OB + "syntax-table generator with super-resolution bias", EXACT)
prop("F03", "Quantiser parameters and lossless derivation are exact",
     "For every frame header the base quantiser index, all plane deltas, quantiser matrix levels, delta-q and delta-lf parameters are exactly those coded or implied, and lossless per segment, coded-lossless, all-lossless and the per-segment matrix levels follow from them and from segmentation as specified.",
     ["inputs"], "all conforming quantisation/segmentation/delta parameters",
     "The quantiser index tests use a handful of values.", FH,
     [("quantization_params, delta_q/lf_params, lossless", FH[0]), ("GetQIndex", FH[0])],
     OB + "syntax-table generator with near-lossless bias", EXACT)
prop("F04", "Segmentation parameters are exact",
     "For every frame header the segmentation flags, every segment's feature enables and (clipped, signed or unsigned) values, the last active segment and the pre-skip flag are exactly those coded or derived; without segmentation all features are off.",
     ["inputs"], "all conforming segmentation parameters, with and without a primary reference frame",
     "No test parses segmentation parameters.", FH, [("segmentation_params", FH[0])],
     OB + "syntax-table generator with segmentation bias", EXACT)
prop("F05", "Loop filter, CDEF, restoration and transform mode parameters are exact",
     "For every frame header the loop filter levels, sharpness and deltas, CDEF damping and strengths, restoration types and unit sizes and the transform mode are exactly those coded, or the specified defaults where lossless coding, intra block copy or disabled tools suppress them.",
     ["inputs", "configurations"], "all conforming in-loop filter parameters for all sequence configurations",
     "No test parses filter parameters.", FH, [("loop_filter_params, cdef_params, lr_params, read_tx_mode", FH[0])],
     OB + "syntax-table generator", EXACT)
prop("F06", "Tile layout is exact and partitions the frame",
     "For every frame size and coded tile layout, the tile columns and rows, their start positions, their logarithms, the context update tile and the tile size field length are exactly those coded. The tiles partition the frame on superblock boundaries and respect the maximum tile width.",
     ["inputs"], "frame sizes up to 65536x65536, both superblock sizes, all uniform and explicit layouts of up to 64x64 tiles",
     "No test parses tile information.", ["tileinfo/tile_info.go", "uncompressedheader/uncompressed_header.go"],
     [("NewTileInfo", "tileinfo/tile_info.go")], OB + "tile layout generator, in frame headers and alone, plus partition invariants", EXACT)
prop("F07", "Reference selection, order hints and skip mode are exact",
     "For every inter frame header the reference slots, the order hint and sign bias of every reference, the reference mode and the skip-mode permission and frames are exactly those coded or derived from the references' order hints, and a shown key frame invalidates stored references.",
     ["inputs", "histories"], "all reference states, order hint lengths and coded reference lists",
     "No test builds a reference state.", FH, [("ref_frame_idx loop, skip_mode_params, get_relative_dist", FH[0])],
     OB + "syntax-table generator over random reference states", EXACT)
prop("F08", "Global motion parameters are exact",
     "For every frame header the global motion type and all six parameters of every reference are exactly those coded relative to the default or to the primary reference's parameters, at the precision the motion vector settings imply.",
     ["inputs"], "all motion types, all representable parameters, all previous parameters, both precisions",
     "No test parses global motion.", FH, [("global_motion_params and sub-exponential decoding", FH[0])],
     OB + "inverse sub-exponential encoder and field comparison", EXACT)
prop("F09", "Film grain parameters are exact",
     "For every frame header whose sequence allows film grain, all grain parameters (seed, scaling points, auto-regression coefficients, shifts, chroma multipliers, flags) are exactly those coded, and reset to their defaults when grain is not applied or the frame is not shown or showable.",
     ["inputs"], "all conforming film grain parameters not loaded from a reference",
     "No test parses film grain.", FH, [("film_grain_params", FH[0])], OB + "syntax-table generator with film grain bias", EXACT)

SY = ["symbol/symbol.go", "tilegroup/tile_group.go"]
prop("E01", "Symbol decoding inverts symbol encoding",
     "For every sequence of symbols and every sequence of valid CDFs, tile data produced by the inverse of the specified range decoder decodes to exactly those symbols, at any byte position, for the shortest data that codes them. The range stays in its normalised interval after every symbol and bytes outside the tile's data have no influence.",
     ["inputs", "histories"], "all CDFs of 2 to 16 symbols, all symbol sequences, all tile sizes",
     "No test decodes a symbol.", SY, [("ReadSymbol", SY[0]), ("initSymbol", SY[1])],
     OB + "exact big-integer range encoder, round trip", EXACT)
prop("E02", "CDF adaptation is exact and keeps CDFs valid",
     "After every symbol decoded with adaptation enabled the CDF is exactly the one the specified adaptation gives (rate by symbol count and alphabet size) and stays a valid CDF; with adaptation disabled no CDF changes. No other CDF changes.",
     ["histories", "inputs"], "all symbol histories from all default and arbitrary CDFs",
     "No test decodes a symbol.", ["symbol/symbol.go"], [("adaptation in ReadSymbol", "symbol/symbol.go")],
     OB + "per-symbol CDF monitor against a reference adaptation", EXACT)
prop("E03", "Default probabilities are the specified ones for every frame that needs them",
     "A frame without primary reference starts from the specification's default CDFs, with the coefficient set its base quantiser index selects (boundaries 20, 60, 120), whatever was decoded and adapted before. Every default CDF is well formed.",
     ["inputs", "histories"], "all base quantiser indices, all earlier decoding",
     "No test looks at CDFs.", ["uncompressedheader/cdf.go", "uncompressedheader/uncompressed_header.go"],
     [("init_non_coeff_cdfs, init_coeff_cdfs", "uncompressedheader/cdf.go")],
     OB + "structure and digest of all default CDFs after headers on dirty states",
     "All arrays for all 256 indices are compared with digests of the tables of the repaired tree, reviewed against the specification; structure is checked independently.")
prop("E04", "CDF lifecycle: save, load and adaptation never alias",
     "Initialising, saving to and loading from reference slots, starting and ending tiles and ending frames move CDF values exactly as specified: each store holds its own copy, later adaptation or reloading of one never shows in another, and loading resets the adaptation counters. Only the tile chosen for context update leaves its CDFs to the frame, and only if the frame allows it.",
     ["histories"], "all histories of initialise, save, load, tile begin, symbol, tile end, frame end",
     "Aliasing shows only over histories of several frames.", ["uncompressedheader/uncompressed_header.go", "state/cdf.go", "tilegroup/tile_group.go", "uncompressedheader/cdf.go"],
     [("SaveCdfs/LoadCdfs", FH[0]), ("initSymbol, exitSymbol, frameEndUpdateCdf", SY[1])],
     OB + "random histories with a value-semantics model of every CDF store, compared after every step", EXACT)
prop("E05", "Arithmetic-coded literals are exact",
     "Fixed-width and non-symmetric literals coded between adaptive symbols decode to exactly the values coded, most significant bit first, for every width and alphabet size, and leave all CDFs alone.",
     ["inputs", "histories"], "all literal widths, all alphabet sizes, all mixes with symbols",
     "No test decodes a literal.", ["literal/literal.go", "symbol/symbol.go"], [("L and NS", "literal/literal.go")],
     OB + "round trip through an exact range encoder", EXACT)

prop("M01", "Arithmetic helpers equal their mathematical definitions",
     "Rounding shifts (also of negative numbers), clipping, floor and ceiling logarithms, recentring, de-interleaving around a reference, bit reversal, the 128-per-half-turn sine and cosine, overlap masks, unit counting and partial sorting give exactly what their definitions give for all arguments a decoder can pass.",
     ["inputs"], "all arguments within the ranges decoding can produce; exhaustive for small ones",
     "One test sorts one array; nothing tests the rest.", ["util/util.go"], [("helpers", "util/util.go")],
     OB + "helper calls compared with independent definitions", EXACT)
prop("M02", "Block geometry tables are consistent",
     "For every block size, width, height, size in 4x4 units, logarithms, the sub-size of every partition and the chroma size of every subsampling are exactly those the block's dimensions imply, and combinations that do not exist are marked by a value that is no block size.",
     ["configurations"], "all block sizes, partitions and subsampling combinations, complete",
     "No test looks at the tables.", ["shared/constants.go"], [("geometry tables", "shared/constants.go")],
     OB + "exhaustive table monitor", "Complete over the finite domain; impossible partitions of 8x8 are excluded.")
prop("B03", "Damage to a stream ends decoding and never reaches back",
     "When a stream is cut at any byte or has bits of its coded tiles changed, decoding ends, with an ordinary error or a result, without hanging or crashing the process. A stream that ends within a temporal unit is always reported; one that ends between two is not. Every unit that lies completely before the damage decodes exactly as in the undamaged stream (output and stored frames), also after what follows it was decoded. The input is not modified and decoding it again has the same outcome.",
     ["inputs", "fault_sequences"], "all cuts and all changes to the coded tiles of all conforming streams",
     "No test damages a stream; the number of cuts and changes is unbounded.",
     ["parser/parser.go", "obu/obu.go", "bitstream/bitstream.go", "tilegroup/tile_group.go", "symbol/symbol.go"],
     [("bitstream, temporalUnit, frameUnit", "parser/parser.go"), ("initSymbol, exitSymbol", "tilegroup/tile_group.go")],
     OB + "fault injection into whole streams (cuts, flipped bits in coded tiles); units before the damage against the model, outcome against a second decoding, a watchdog for hangs", EXACT)

prop("D01", "Decoders are isolated from each other",
     "Decoding a stream gives the same units, headers, symbols and adapted probabilities whether the decoder runs alone, after other decoders in the same process, or concurrently with them, and concurrent decoders never race on shared memory.",
     ["schedules", "histories"], "all interleavings of independent decoders, all orders of decoders in one process",
     "No test runs two decoders.", ["parser/parser.go", "logger/logger.go", "uncompressedheader/cdf.go", "symbol/symbol.go", "state/cdf.go"],
     [("state per decoder", "parser/parser.go"), ("copies of default tables", "uncompressedheader/cdf.go")],
     "Go race detector plus differential replay: alone, after others, among seven others", EXACT + " Interleavings are those the scheduler produced with injected yields.")

TG = "tilegroup/"
prop("F10", "What frames inherit from their primary reference frame is exact",
     "A frame with a primary reference frame starts from exactly what that reference saved: all probabilities (with the coefficient counters reset), segmentation features where none are coded, the segment map when the sizes agree and segmentation is enabled (zero otherwise), loop filter deltas, and global motion parameters to code its own against. A frame without one starts from the specified defaults. Slots other than the primary reference have no influence on these.",
     ["inputs", "histories"], "all conforming frame headers with and without primary reference frames, for all contents of the reference slots",
     "No test parses the header of a frame that inherits anything.", FH + ["uncompressedheader/cdf.go"],
     [("loadPrevious, loadPreviousSegementIds", FH[0]), ("LoadCdfs", "uncompressedheader/cdf.go")], OB + "syntax-table generator over reference slots filled with random state; the state after the header compared field by field", EXACT)
prop("T01", "Inverse transforms are exact for every size and type",
     "For every transform size, every transform type the size allows, every bit depth and every block of dequantised coefficients a conforming stream can contain, the two-dimensional inverse transform produces exactly the integer residual the specification defines, including its intermediate rounding and clamping, and lossless blocks use the Walsh-Hadamard transform. Samples outside the coded area and what earlier blocks left behind have no influence.",
     ["inputs", "histories"], "all 19 sizes, 16 types, 3 bit depths, all coefficient blocks whose intermediate values fit (the conformance condition)",
     "No test transforms a block; the number of coefficient blocks is astronomical.", [TG + "transform.go", "util/util.go"],
     [("InverseTranform and the one-dimensional networks", TG + "transform.go")],
     OB + "every residual sample compared with an independent recursive integer transform, which is itself checked against the real-valued transform", EXACT)
prop("T02", "Dequantisation and reconstruction are exact",
     "For every block of quantised coefficients, every quantiser index (frame, delta and segment), plane, quantiser matrix level and bit depth, the coefficients are scaled, wrapped, divided and clamped as specified, transformed, flipped and added to the prediction, and clipped to the bit depth. Exactly the samples of the block change, and only in its plane; the quantiser tables and matrices are the specified ones.",
     ["inputs", "configurations"], "all sizes, types, planes, depths, quantiser states and coefficient blocks within the conformance condition",
     "No test reconstructs a block.", [TG + "reconstruct.go", TG + "transform.go", TG + "quantizer.go", "uncompressedheader/uncompressed_header.go"],
     [("reconstruct", TG + "reconstruct.go"), ("quantiser tables", TG + "quantizer.go"), ("GetQIndex", "uncompressedheader/uncompressed_header.go")],
     OB + "whole planes compared with an independent reconstruction; tables against pinned digests and their symmetries", EXACT)

prop("L01", "Deblocking is exact for every frame",
     "For every division of a frame into blocks and transforms, every filter level, sharpness, delta (reference, mode, segment, block) and bit depth, deblocking changes exactly the samples the specification changes to exactly the specified values: vertical edges of the plane before horizontal ones, filter lengths from the smaller transform, no filtering inside skipped inter blocks, levels from the block before the edge if the block after it has none. Nothing outside the frame is read or written.",
     ["inputs", "configurations"], "all block layouts, levels, formats, depths and sample contents",
     "No test filters a frame.", [TG + "loop_filter_process.go"], [("loopFilter and the edge process", TG + "loop_filter_process.go")],
     OB + "every sample compared with an independent deblocking that follows block and transform identities instead of sizes", EXACT)
prop("L02", "CDEF is exact for every frame",
     "The constrained directional enhancement filter finds the specified direction and variance of every 8x8 block, and filters every plane with the specified strengths, dampings, taps and limits, ignoring samples outside the frame and leaving alone skipped blocks and blocks without a filter index. It reads only the deblocked frame.",
     ["inputs", "configurations"], "all frames, skip patterns, strengths, dampings, formats and depths",
     "No test filters a frame.", [TG + "cdef.go"], [("cdefProcess", TG + "cdef.go")],
     OB + "every sample compared with an independent filter", EXACT)
prop("L03", "Loop restoration is exact for every frame",
     "Every restoration unit is filtered with its own type and parameters (none, Wiener, self-guided with every parameter set), in stripes of 64 luma rows shifted up by eight that see two rows of the deblocked frame beyond their edges, in every plane, format, unit size and bit depth; frames and planes without restoration are the upscaled CDEF output.",
     ["inputs", "configurations"], "all frames, unit layouts, parameters, formats and depths",
     "No test filters a frame.", [TG + "loop_restoration.go"], [("loopRestoration", TG + "loop_restoration.go")],
     OB + "every sample compared with an independent filter", EXACT)
prop("L04", "Super-resolution upscaling is exact",
     "For every coded and upscaled width, format and depth each sample of the upscaled frame is the specified eight-tap interpolation at the specified 1/64 position, with the frame edge repeated; without super-resolution the frame is copied. The input is not changed, and the filter table is the specified one.",
     ["inputs", "configurations"], "all widths, denominators 8 to 16, formats, depths, contents",
     "No test upscales a frame.", [TG + "decode_frame_wrapup.go"], [("upscalingProcess", TG + "decode_frame_wrapup.go"), ("UPSCALE_FILTER", TG + "decode_frame_wrapup.go")],
     OB + "every sample compared with an independent interpolation; table against a pinned digest, sums and symmetry", EXACT)

prop("P01", "Intra prediction is exact for every mode and edge",
     "For every block size, position, mode, angle, filter-intra mode, edge filter and upsampling condition, neighbour availability, plane format and bit depth, intra prediction writes exactly the specified samples: edge pixels come from the decoded neighbours that are available and are extended or replaced by the specified values otherwise, and samples outside the block stay unchanged.",
     ["inputs", "configurations"], "all transform sizes, modes, angles, availabilities, positions, formats, depths and contents",
     "No test predicts a block.", [TG + "predict_intra.go"], [("predictIntra and its edge processes", TG + "predict_intra.go")],
     OB + "every sample of the plane compared with an independent prediction", EXACT)
prop("P02", "Palette and chroma-from-luma prediction are exact",
     "Palette blocks are painted with the colours their colour map selects in the plane concerned, and chroma-from-luma adds the scaled difference of the subsampled reconstructed luma from its average to the chroma prediction, repeating luma beyond what was decoded, for every size, position, format, factor and depth.",
     ["inputs", "configurations"], "all block sizes, palettes, colour maps, factors, luma extents, formats, depths",
     "No test predicts a block.", [TG + "predict_intra.go", "state/state.go"], [("predictPalette and predictChromaFromLuma", TG + "predict_intra.go")],
     OB + "every sample of the plane compared with an independent prediction", EXACT)

prop("V02", "The partition tree of every superblock is decoded exactly",
     "For every superblock size, tile position, frame size, plane format and probability state, decoding a tile splits each superblock into exactly the blocks coded, including the ten partition kinds, the forced and half-forced splits at the bottom and right edges, and leaves the specified block sizes for every 4x4 position of the tile while the rest of the frame stays unchanged.",
     ["inputs", "configurations"], "all partition trees, frame and tile sizes, formats, probabilities and surroundings",
     "No test decodes a tile.", [TG + "decode_partition.go", TG + "tile_group.go", TG + "decode_block.go"], [("decodePartition", TG + "decode_partition.go"), ("decodeTile", TG + "tile_group.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; block sizes and entropy decoder state compared", EXACT)
prop("V03", "Modes, skip flags and deltas of intra frames are decoded exactly",
     "For every block of an intra frame the decoder reports exactly the coded skip flag, luma and chroma mode, angle deltas, chroma-from-luma factors, filter-intra mode, CDEF index, quantiser index and loop filter deltas, each read under the specified condition with the probabilities its neighbours select, and stores them for all positions of the block and no other.",
     ["inputs", "histories", "configurations"], "all sequences of coded blocks, neighbour combinations, probabilities and header settings",
     "No test decodes a block.", [TG + "intra_frame_mode_info.go", TG + "decode_block.go"], [("intraFrameModeInfo", TG + "intra_frame_mode_info.go"), ("decodeBlock", TG + "decode_block.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; stored mode info and entropy decoder state compared", EXACT)
prop("V04", "Segment ids are predicted, read and limited exactly",
     "With segmentation enabled every block has exactly the coded segment, whether it is read before or after the skip flag, predicted from neighbours for skipped blocks, or limited to the last active segment; segment features (skip, lossless, quantiser) take effect for exactly the blocks of the segment.",
     ["inputs", "histories", "configurations"], "all segment maps, feature settings, skip combinations and probabilities",
     "No test decodes a block.", [TG + "intra_frame_mode_info.go", TG + "decode_block.go"], [("readSegmentId", TG + "intra_frame_mode_info.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; segment maps and entropy decoder state compared", EXACT)
prop("V05", "Palettes and colour maps are decoded exactly",
     "For every palette block the decoder obtains exactly the coded colours of all planes, from the cache of neighbouring palettes, literally or as differences, sorted as specified, and exactly the coded colour index of every sample, including the parts of the block beyond the frame; the samples painted are those colours.",
     ["inputs", "histories", "configurations"], "all palettes, caches, colour maps, block sizes, depths and formats",
     "No test decodes a block.", [TG + "palette.go", TG + "palette_tokens.go", TG + "residual.go"], [("paletteModeInfo", TG + "palette.go"), ("paletteTokens", TG + "palette_tokens.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; colours, painted samples and entropy decoder state compared", EXACT)
prop("V06", "Transform sizes of intra blocks are decoded exactly",
     "For every block size, transform mode, lossless setting and neighbourhood, the decoder obtains exactly the coded transform size with the probabilities its neighbours select, and records for the loop filter and for later contexts the sizes of all transform blocks inside the frame.",
     ["inputs", "histories", "configurations"], "all block sizes, transform depths, modes and neighbour combinations of intra frames",
     "No test decodes a block.", [TG + "tx_size.go", TG + "residual.go"], [("readBlockTxSize", TG + "tx_size.go"), ("transformBlock", TG + "residual.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; recorded sizes and entropy decoder state compared", EXACT)
prop("V07", "Intra tiles are decoded to exactly the specified samples",
     "Decoding any conforming tile of an intra frame leaves in the current frame exactly the specified samples before in-loop filtering, with prediction, palette, chroma from luma and residual of every transform block applied in order, using only samples and modes already decoded in the same tile; nothing outside the tile that is visible changes, and whatever the memory held before has no influence.",
     ["inputs", "histories", "configurations"], "all conforming intra tiles (without intra block copy), formats, depths, surroundings and earlier contents",
     "No test decodes a tile.", [TG + "tile_group.go", TG + "decode_block.go", TG + "residual.go", TG + "reconstruct.go", TG + "predict_intra.go"], [("decodeTile", TG + "tile_group.go"), ("transformBlock and reconstruct", TG + "residual.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; every sample, all stored mode info and entropy decoder state compared", EXACT)
prop("T03", "Coefficients are decoded exactly",
     "For every transform size, type, plane and context history, the decoder reads exactly the coded number of coefficients, their positions in the specified scan order, levels (including Golomb codes) and signs, with the probabilities that neighbouring levels select, and updates the contexts of all positions the block covers.",
     ["inputs", "histories", "configurations"], "all coefficient arrays, sizes, types, contexts and probabilities of intra frames",
     "No test decodes coefficients.", [TG + "coeffs.go", TG + "residual.go"], [("coeffs", TG + "coeffs.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; samples reconstructed from the coefficients and entropy decoder state compared", EXACT)
prop("T04", "Transform types are chosen exactly",
     "For every transform block the transform type is the one coded in the transform set that size, reduced-set flag, quantiser and mode select, or the specified default (by prediction mode, for chroma, for lossless and large blocks) where none is coded, and it is recorded for every 4x4 position of the block.",
     ["inputs", "histories", "configurations"], "all sizes, modes, sets, quantisers, skip and lossless combinations of intra frames",
     "No test decodes a transform type.", [TG + "coeffs.go", TG + "transform.go"], [("transformType and computeTxType", TG + "coeffs.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; recorded types and entropy decoder state compared", EXACT)
prop("L05", "Loop restoration parameters are decoded exactly",
     "For every superblock the decoder reads the parameters of exactly the restoration units that start in it, of each plane, for every unit size, superblock size, subsampling, frame size and super-resolution denominator, and obtains exactly the coded type, Wiener taps, self-guided set and weights, each relative to the last ones of the plane.",
     ["inputs", "histories", "configurations"], "all unit sizes, frame sizes, denominators, formats and parameter sequences",
     "No test reads restoration parameters.", [TG + "read_loop_restoration.go", TG + "tile_group.go"], [("readLr and readLrUnit", TG + "read_loop_restoration.go")],
     OB + "tiles generated symbol by symbol, encoded and decoded by the real code; parameters of all units and entropy decoder state compared", EXACT)

prop("G01", "Tiles and tile groups assemble into their frame",
     "However a frame is divided into tiles, and its tiles into tile groups (in frame OBUs or tile group OBUs, with or without start and end indices, redundant headers and other OBUs between them), every tile is decoded with the bytes its size gives it, at its place, independently of the other tiles' symbols and contexts, and the frame is completed exactly once, with its last tile. The probabilities carried on are those of the tile the header names.",
     ["inputs", "histories"], "all tile layouts, tile group divisions and unit orders of conforming streams of intra frames",
     "No test decodes a frame of several tiles or tile groups, and results depend on state carried from one OBU to the next.",
     ["tilegroup/tile_group.go", "obu/obu.go", "parser/parser.go", "tileinfo/tile_info.go"],
     [("TileGroup.build", "tilegroup/tile_group.go"), ("Obu.build", "obu/obu.go"), ("exitSymbol, frameEndUpdateCdf", "tilegroup/tile_group.go")],
     OB + "whole streams of intra frames from a generator that is a second decoder; end position, output, stored frames and CDFs after every unit", EXACT)

prop("G02", "Intra streams decode to the specified pictures",
     "A conforming stream of key and intra-only frames (any size, bit depth, subsampling, monochrome, quantiser matrices, segmentation, delta quantiser and loop filter, palettes, chroma from luma, filter intra, super-resolution, deblocking, CDEF, loop restoration) is decoded to exactly the pictures the specification defines: after the units of a shown frame the output planes hold its samples at its upscaled size, and hidden frames leave the output as it was.",
     ["inputs", "histories"], "all conforming Annex B streams of intra frames without film grain, intra block copy and layers",
     "Tests decode no frame at all; the picture depends on every header field, symbol and filter working together.",
     ["tilegroup/decode_frame_wrapup.go", "tilegroup/output.go", "tilegroup/tile_group.go", "obu/obu.go", "parser/parser.go"],
     [("DecodeFrameWrapup", "tilegroup/tile_group.go"), ("outputProcess", "tilegroup/output.go"), ("temporalUnit", "parser/parser.go")],
     OB + "whole streams of intra frames from a generator that is a second decoder including the in-loop filters; every output sample after every unit", EXACT)

prop("R01", "Reference slots keep exactly the frames stored in them",
     "After each decoded frame exactly the slots its refresh flags name hold it (samples before output, sizes, type, order hint, segment ids, global motion, loop filter deltas, segmentation features and probabilities) and all others are unchanged. Showing an existing frame outputs exactly the stored picture, and showing a key frame again also reloads its state and stores it in every slot.",
     ["histories"], "all histories of shown, hidden and repeated intra frames of changing size and format",
     "Slots are state over the whole history of a stream; no test decodes two frames.",
     ["tilegroup/decode_frame_wrapup.go", "tilegroup/output.go", "uncompressedheader/cdf.go", "obu/obu.go", "state/state.go"],
     [("referenceFrameUpdate, referenceFrameLoadingProcess", "tilegroup/decode_frame_wrapup.go"), ("SaveCdfs, LoadCdfs", "uncompressedheader/cdf.go"), ("show_existing_frame", "obu/obu.go")],
     OB + "whole streams with a model of the reference slots; every slot compared after every frame, the saved state at the end", EXACT)

PI, CP = TG + "predict_inter.go", TG + "compute_prediction.go"
INTER = OB + "random frames of blocks with random motion and references, predicted block by block by the real code and by a second implementation; all planes compared after every block and at the end"
prop("I01", "Motion compensated prediction is exact",
     "For every inter block (and intra block copy) the samples predicted by moving a reference are exactly the specified ones: the position is scaled by the ratio of the sizes of reference and frame, the interpolation filters are those of the block's two directions (the short ones up to 4 samples), positions beyond the reference repeat its edge, rounding depends on the bit depth and on whether the block is compound, the chroma of blocks that share it is predicted piece by piece with the motion of each, and no other sample of the frame and no reference changes.",
     ["inputs", "configurations"], "all block sizes, positions, vectors, filters, bit depths, subsamplings, and all permitted reference sizes",
     "No test predicts an inter block.", [PI, CP],
     [("motionVectorScalingProcess", PI), ("blockInterPredictionProcess", PI), ("predictInter", PI), ("computePrediction", CP)], INTER, EXACT)
prop("I02", "Warped prediction is exact",
     "For every block with a local warp or with a global motion beyond translation, the warp is fitted to the neighbouring samples, rejected as invalid, or taken from the frame header exactly as specified, and the samples predicted with it, in 8x8 pieces with position dependent filters, are exactly the specified ones; blocks that may not be warped (small, scaled reference, invalid warp, integer vectors) are translated.",
     ["inputs", "configurations"], "all block sizes and positions, sample sets, vectors, global motion parameters, bit depths and subsamplings",
     "No test fits a warp or warps a block.", [PI], [("warpEstimationProcess", PI), ("setupShearProcess", PI), ("resolveDivisorProcess", PI), ("blockWarpProcess", PI)], INTER, EXACT)
prop("I03", "Compound and inter-intra predictions blend exactly",
     "For every compound block the two predictions are averaged, weighted by the distances of their frames, or blended with the mask of the wedge or with the mask made from their luma difference, and for every inter-intra block the intra prediction is blended with the smooth or the wedge mask, exactly as specified in every plane, with masks subsampled for chroma, full intermediate precision and results clipped to the bit depth.",
     ["inputs", "configurations"], "all compound types, block sizes, wedges and signs, inter-intra modes, order hints, bit depths and subsamplings",
     "No test blends predictions; every wedge of every block size has a mask of its own.", [PI, "wedgemask/wedge_mask.go"],
     [("maskBlendProcess", PI), ("distanceWeightsProcess", PI), ("differenceWeightMaskProcess", PI), ("intraModeVariantMaskProcess", PI), ("initialiseWedgeMaskTable", "wedgemask/wedge_mask.go")], INTER, EXACT)
prop("I04", "Overlapped block motion compensation is exact",
     "For every block with overlapped motion compensation, the predictions with the motion of the inter blocks above and then to the left (at most four each, by size) are blended into the block's prediction over exactly the specified part of each plane with the specified masks; neighbours outside the tile, intra neighbours and samples outside the overlap have no effect.",
     ["inputs", "histories", "configurations"], "all block sizes, neighbourhoods, tile edges, bit depths and subsamplings",
     "No test overlaps predictions; the result depends on the layout of the neighbours.", [PI],
     [("overlappedMotionCompensationProcess", PI), ("overlapBlendingProcess", PI)], INTER, EXACT)

MVS, IBM = TG + "find_mv_stack.go", TG + "inter_block_mode_info.go"
prop("N01", "Predicted motion vectors are exact",
     "For every inter block (single, compound or intra block copy) the list of predicted motion vectors holds exactly the candidates the specification derives from the neighbouring blocks of the tile decoded before, the motion field and the global motion, in order of their weights, at the precision of the frame and clamped to its surroundings; the global vectors and the contexts with which modes and list positions are read follow from the same search. Blocks outside the tile or not decoded yet contribute nothing.",
     ["inputs", "histories", "configurations"], "all block sizes and positions, neighbourhoods, references, motion fields, global motions and precisions",
     "No test predicts a motion vector.", [MVS],
     [("findMvStack", MVS), ("addRefMvCandidate", MVS), ("temporalScanProcess", MVS), ("extraSearchProcess", MVS), ("contextAndClampingProcess", MVS)],
     OB + "random frames of inter blocks laid out by random partitions; the list, contexts and global vectors of every block compared with those of a second implementation", EXACT)
prop("N02", "Samples for local warps are exact",
     "For every block of one reference and at least 8x8 samples, the list of neighbouring blocks from which a local warp is estimated holds exactly the specified neighbours (those with the same single reference, inside the tile and decoded before, with motion close enough to that of the block, at most eight of them), each with the position of its centre and where its motion takes it.",
     ["inputs", "histories", "configurations"], "all block sizes and positions, neighbourhoods, references and vectors",
     "No test looks for such neighbours.", [IBM], [("findWarpSamples", IBM), ("addSample", IBM)],
     OB + "random frames of inter blocks laid out by random partitions; the samples of every block compared with those of a second implementation", EXACT)

IFM = TG + "inter_frame_mode_info.go"
IMV = TG + "assign_mv.go"
SYN = TG + "syntax_element.go"
GENI = OB + "tiles of inter frames generated symbol by symbol, encoded and decoded by the real code; "

prop("N03", "Modes and motion vectors of inter blocks are decoded exactly",
     "For every block of an inter frame the decoder reads the coded prediction mode (single or compound) and choice among the predicted motion vectors with the specified contexts, and ends up with exactly the coded motion vector for each reference: predicted, global, or predicted plus a coded difference of any magnitude at the precision of the frame. Intra block copies in intra frames get exactly the coded vector, from the specified default where nothing was predicted.",
     ["inputs", "histories", "configurations"], "all modes, vectors, precisions, neighbourhoods and probabilities",
     "No test decodes an inter block.", [IBM, IMV], [("interBlockModeInfo", IBM), ("assignMv, readMv", IMV)],
     GENI + "recorded modes and vectors and entropy decoder state compared", EXACT)
prop("N04", "References of inter blocks and skip modes are decoded exactly",
     "For every block of an inter frame the decoder finds exactly the coded inter or intra decision, skip mode flag and reference frames (one, two on the same side or two on opposite sides), with probabilities selected by the specified counts of the references of the blocks above and to the left, or the references that skip mode and segment features dictate without reading anything.",
     ["inputs", "histories", "configurations"], "all references, neighbourhoods, segment features, probabilities",
     "No test decodes an inter block.", [IBM, IFM, SYN], [("readRefFrames", IBM), ("compModeSymbol, compRefTypeSymbol and the rest", SYN), ("readSkipMode, readIsInter", IFM)],
     GENI + "recorded references, flags and entropy decoder state compared", EXACT)
prop("N05", "Prediction kinds of inter blocks are decoded exactly",
     "For every inter block the decoder reads exactly the coded interpolation filters, inter-intra mode and wedge, motion mode (simple, overlapped, locally warped) and compound type (average, distance, wedge, difference), each only where frame, sequence, size, mode, references and neighbours allow it and with the specified context, and takes the specified default elsewhere, so that the block is predicted as coded.",
     ["inputs", "histories", "configurations"], "all combinations of header flags, block sizes, modes, references, neighbours and probabilities",
     "No test decodes an inter block.", [IBM, SYN], [("readMotionMode, readCompoundType, readInterIntraMode, needsInterpFilter", IBM), ("interpFilterSymbol and the rest", SYN)],
     GENI + "recorded filters and compound indices, predicted samples and entropy decoder state compared", EXACT)
prop("N06", "Segments of inter frames are decoded exactly",
     "For every block of an inter frame the segment is the one the specification defines: read, predicted from the previous frame's map when the coded flag says so, taken from that map when the map is not updated, or predicted from neighbours for skipped blocks; with the order of segment and skip flag that the segment features ask for, and with the specified contexts for the prediction flag.",
     ["inputs", "histories", "configurations"], "all feature sets, maps of the previous frame, update modes, block layouts and probabilities",
     "No test decodes an inter frame with segments.", [IFM, TG + "intra_frame_mode_info.go"], [("interSegmentId, getSegmentId", IFM)],
     GENI + "recorded segments and entropy decoder state compared", EXACT)
prop("T05", "Transform trees and types of inter blocks are decoded exactly",
     "For every inter block, and every intra block copy, the decoder reads exactly the coded tree of transform sizes with the specified contexts (or the implied size where none is coded), decodes the transform blocks of the tree in order and nowhere else, and gives each its coded or default transform type, with chroma following the luma it covers.",
     ["inputs", "histories", "configurations"], "all block sizes, trees, sets, quantisers, skipped and lossless blocks and probabilities",
     "No test decodes an inter block.", [TG + "tx_size.go", TG + "residual.go", TG + "coeffs.go"], [("readVarTxSize", TG + "tx_size.go"), ("transformTree", TG + "residual.go")],
     GENI + "recorded transform sizes and types and entropy decoder state compared", EXACT)
prop("V08", "Inter tiles are decoded to exactly the specified samples",
     "Decoding any conforming tile of an inter frame, or of an intra frame with block copies, leaves in the current frame exactly the specified samples before in-loop filtering: every block predicted from its references as coded, intra blocks and inter-intra blocks from the samples decoded so far, plus the residual; with all mode info later blocks and filters rely on recorded, and nothing visible outside the tile changed.",
     ["inputs", "histories", "configurations"], "all conforming tiles of inter frames and of intra frames with block copies; formats, depths, references, surroundings and earlier contents",
     "No test decodes an inter frame.", [TG + "tile_group.go", TG + "decode_block.go", TG + "residual.go", TG + "compute_prediction.go", IBM, IFM], [("decodeTile", TG + "tile_group.go"), ("computePrediction", TG + "compute_prediction.go")],
     GENI + "every sample, all stored mode info and entropy decoder state compared", EXACT)

prop("G03", "Inter streams decode to the specified pictures",
     "A conforming stream of key, intra-only and inter frames (references of other sizes, hidden and repeated frames, all prediction tools, inherited probabilities and segments, global motion, all in-loop filters) is decoded to exactly the pictures the specification defines, whatever was decoded before: after the units of a shown frame the output planes hold its samples at its upscaled size, and hidden frames leave the output as it was.",
     ["inputs", "histories"], "all conforming Annex B streams without film grain and layers",
     "Tests decode no frame at all.",
     ["tilegroup/decode_frame_wrapup.go", "tilegroup/output.go", TG + "tile_group.go", IFM, IBM, "uncompressedheader/uncompressed_header.go"],
     [("DecodeFrameWrapup", "tilegroup/tile_group.go"), ("loadPrevious, frameSizeWithRefs", "uncompressedheader/uncompressed_header.go"), ("decodeTile", TG + "tile_group.go")],
     OB + "whole streams from a generator that is a second decoder of headers, tiles, prediction and in-loop filters with a model of the reference slots; every output sample after every unit", EXACT)
prop("R02", "References and inherited state stay exact over inter streams",
     "Over any history of inter, intra-only, key and repeated frames, after each frame exactly the slots its refresh flags name hold it, with its samples, sizes, order hints, segment map, global motion, loop filter deltas, segmentation features and adapted probabilities; all other slots are unchanged, and frames that predict or inherit from a slot get exactly what it holds.",
     ["histories"], "all histories of inter, intra and repeated frames of changing size and format",
     "Slots are state over the whole history of a stream; no test decodes two frames.",
     ["tilegroup/decode_frame_wrapup.go", "uncompressedheader/cdf.go", "uncompressedheader/uncompressed_header.go", "state/state.go"],
     [("referenceFrameUpdate, referenceFrameLoadingProcess", "tilegroup/decode_frame_wrapup.go"), ("SaveCdfs, LoadCdfs", "uncompressedheader/cdf.go"), ("loadPrevious", "uncompressedheader/uncompressed_header.go")],
     OB + "long streams of small inter frames with a model of the reference slots; every slot compared after every frame, the saved state at the end", EXACT)

prop("R03", "Decoding starts afresh at every shown key frame",
     "A stream that starts with a sequence header and a shown key frame decodes to the same pictures, reference slots and saved state whatever the decoder was given before: other streams with other formats, sizes, tile layouts and tools, streams that stop after any unit (even in the middle of a frame), and streams whose coded tiles were damaged. Nothing the decoder kept from them shows.",
     ["histories", "fault_sequences"], "all conforming streams after all histories of other streams, unfinished and damaged ones included",
     "Leftover state only shows in long histories with the right pair of streams; no test decodes two streams with one decoder.",
     ["parser/parser.go", "obu/obu.go", "state/state.go", TG + "tile_group.go", TG + "decode_frame_wrapup.go", "uncompressedheader/uncompressed_header.go"],
     [("SeenFrameHeader", "obu/obu.go"), ("allocateModeInfo, clear contexts", TG + "tile_group.go"), ("setupPastIndependence", "uncompressedheader/uncompressed_header.go")],
     OB + "whole streams decoded after one or two others (whole, cut at a unit, or with flipped bits in their tiles) by the same decoder; output, stored frames and saved state against the model of a fresh decoder", EXACT)

prop("Z01", "Motion fields, reference sets, film grain and layers are exact",
     "Every conforming stream that uses motion field prediction, short signalling of reference frames, film grain or several layers decodes to exactly the pictures the specification defines.",
     ["inputs", "histories"], "all conforming streams with these tools", "No test decodes an inter frame.",
     ["tilegroup/tile_group.go"], [("TileGroup", "tilegroup/tile_group.go")], "", "",
     na="gov1 does not have these tools: motion field estimation and storage, set_frame_refs, load_grain_params, film grain synthesis, the choice of an operating point's output and large scale tiles are stubs that panic as not implemented, so there is no execution in which the property is meaningful, and writing them is not a repair. Inter frames without them are claimed by G03 and R02, their headers by F01 to F10.")
