#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled LLVM IR + z3"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, claimed=True, reason=None, technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claimed=claimed, reason=reason, technique=technique))

prop("C01", "BC1/BC2/BC3 colour blocks decode to the S3TC palette, bit for bit",
 "Decompressing any block of BC1, BC2 or BC3 gives each of the 16 pixels the palette colour its 2-bit index selects: 5:6:5 endpoints expanded by bit replication, interpolants (2a+b)/3 and (a+2b)/3 truncated to integers. BC1 blocks whose first endpoint is not greater than the second use (a+b)/2 and transparent black (all four bytes 0) instead; BC2 and BC3 never do; every other BC1 pixel has alpha 255.",
 ["inputs"], "every 8-byte BC1 block and every 16-byte BC2/BC3 block, every pixel position",
 "The tests decode one gray and one colour image per format; 2^64 blocks, equal endpoints, both endpoint orders and every index pattern are out of their reach.",
 ["lib/src/colourblock.rs", "lib/src/lib.rs"], [("565 unpacking, palette construction and index expansion", "lib/src/colourblock.rs decompress"), ("format dispatch", "lib/src/lib.rs decompress_block")],
 "All blocks and all pixels, no bound; assumes rustc's IR and the executor's semantics of it (validated against the native build on each run).")
prop("C02", "BC2 and BC3 alpha blocks decode to the specified alpha, bit for bit",
 "Decompressing any BC2 block gives pixel i the alpha 17*n, n being its 4-bit field; any BC3 block gives it the entry its 3-bit index selects in the alpha palette. With a0 > a1 that palette is a0, a1 and the six truncated sevenths between them, otherwise a0, a1, the four truncated fifths, 0 and 255.",
 ["inputs"], "every 16-byte BC2 and BC3 block, every pixel position",
 "The tests decode a handful of fixed blocks; the a0 <= a1 mode, the 3-bit indices crossing byte borders and the truncation of each interpolant need all inputs.",
 ["lib/src/alpha.rs", "lib/src/lib.rs"], [("4-bit expansion", "lib/src/alpha.rs decompress_bc2"), ("alpha palette and 3-bit index unpacking", "lib/src/alpha.rs decompress_bc3")],
 "All blocks and all pixels, no bound.")
prop("C03", "BC4 and BC5 blocks decode to the specified channels, bit for bit",
 "Decompressing any BC4 block yields its gradient value in red, green and blue with alpha 255. Decompressing any BC5 block yields the first half's gradient value in red, the second half's in green, blue 0 and alpha 255.",
 ["inputs"], "every 8-byte BC4 block and 16-byte BC5 block, every pixel position",
 "Tests decode a few fixed blocks only.",
 ["lib/src/alpha.rs", "lib/src/lib.rs"], [("gradient decoding into a chosen channel", "lib/src/alpha.rs decompress_bc3"), ("splat and channel defaults", "lib/src/lib.rs decompress_block")],
 "All blocks and all pixels, no bound.")
prop("C04", "Image decompression puts every block's pixels at the right place and crops",
 "Decompressing an image of any width and height at least 1 writes to pixel (x, y) exactly the pixel (x mod 4, y mod 4) of the decoded block (x div 4, y div 4), blocks being stored row by row. No other byte of the output is written, also when the output or input buffer is larger than needed, and a buffer that is too small is refused by a panic.",
 ["inputs", "configurations"], "all block contents; all formats; dimensions 1x1 upward that are and are not multiples of 4; exact, oversized and undersized buffers",
 "The tests decode 4x4 images only: no second block, no cropped edge, no larger buffer.",
 ["lib/src/lib.rs"], [("block iteration and cropping", "lib/src/lib.rs decompress")],
 "Symbolic block contents and buffer bytes; dimensions enumerated up to the stated bound.")
prop("C05", "Image compression stores each block's code at its place and pads correctly",
 "Compressing an image of any width and height at least 1 writes, for every 4x4 tile in row order, exactly the block code that block compression gives for the tile's pixels with the positions outside the image masked out. Bytes beyond the compressed size stay untouched when the buffer is larger, and a buffer that is too small is refused by a panic.",
 ["inputs", "configurations"], "all pixel data; all formats; dimensions that are and are not multiples of 4; exact, oversized and undersized output buffers",
 "The tests compress 4x4 images into exact buffers: one block, full mask.",
 ["lib/src/lib.rs"], [("tile gathering, masking and placement", "lib/src/lib.rs compress")],
 "Symbolic pixel data; dimensions enumerated up to the stated bound; block compression itself treated as an arbitrary function of its arguments.")
prop("C06", "Block counts and compressed sizes are exact for every dimension",
 "The number of blocks along a dimension of n pixels is n/4 rounded up, and the compressed size is the product of both block counts and the block size, which is 8 bytes for BC1 and BC4 and 16 bytes for BC2, BC3 and BC5. This holds for every size for which the result is addressable, without overflow.",
 ["inputs"], "all dimensions whose compressed size is representable",
 "Tests check ten size pairs.",
 ["lib/src/lib.rs"], [("size arithmetic", "lib/src/lib.rs num_blocks, block_size, compressed_size")],
 "All 64-bit sizes up to usize::MAX-3 for block counts; all pairs of dimensions below 2^31 for sizes.")
prop("C07", "BC2 alpha is quantised to the nearest 4-bit level",
 "Compressing any block to BC2 and decompressing it returns, for every enabled pixel, the multiple of 17 nearest to its alpha (error at most 8), and 0 for disabled pixels. The stored alpha depends on nothing else: not on colour, algorithm, weights or the other pixels.",
 ["inputs", "configurations"], "all pixel data, all masks, all algorithms and weights",
 "Tests compress a few fixed blocks with full masks.",
 ["lib/src/alpha.rs"], [("4-bit quantisation and packing", "lib/src/alpha.rs compress_bc2")],
 "All pixel values and masks; the float rounding is exact (tables over a byte).")
prop("C08", "BC3 alpha, BC4 and BC5 channels get the best index and the better codebook",
 "In a compressed BC3 alpha, BC4 or BC5 channel, every enabled pixel is assigned an entry of the stored palette that is nearest to its value. The block's total squared error is no larger than that of either candidate palette: the range of all values in 8-step mode and the range of the values other than 0 and 255 in 6-step mode, narrow ranges being widened to 7 and 5 levels. Channels with at most two distinct values are reproduced exactly.",
 ["inputs", "configurations"], "all 16-value channels and all masks",
 "Tests compress a few fixed blocks; ties, masks, 0/255 mixtures and endpoint swaps need all inputs.",
 ["lib/src/alpha.rs"], [("range selection, codebooks and codebook choice", "lib/src/alpha.rs compress_bc3, fit_codes, write_alpha_block5/7")],
 "All channel contents; masks as stated in the bounds. Values, palettes and errors are cut and generalised level by level, each step discharged by the solver.")
prop("C09", "BC1 keeps the alpha test: transparent stays transparent, opaque stays opaque",
 "Compressing any block to BC1 with any algorithm and any weights in range, then decompressing it, gives every enabled pixel with alpha below 128 transparent black and every other enabled pixel alpha 255.",
 ["inputs", "configurations"], "all pixel data and masks, all algorithms and weights",
 "Tests contain no transparent BC1 block and only three fixed configurations.",
 ["lib/src/colourset.rs", "lib/src/colourblock.rs", "lib/src/colourfit"], [("transparency detection and index remapping", "lib/src/colourset.rs"), ("endpoint order of 3- and 4-colour blocks", "lib/src/colourblock.rs write3, write4")],
 "Floating point over-approximated by intervals and arbitrary comparison outcomes, so the proof covers every rounding; bounds as stated.")
prop("C10", "A block of one colour round-trips almost exactly",
 "Compressing a block whose enabled opaque pixels all have the same colour to BC1, BC2 or BC3 and decompressing it reproduces that colour in those pixels with an error of at most 1 per channel, whatever the algorithm and weights. In BC1 blocks that also contain transparent pixels, which leave only three colours, the error is at most 2.",
 ["inputs", "configurations"], "all 2^24 colours, all non-empty masks, all algorithms and weights",
 "Tests have no solid blocks; 2^24 colours times masks are not sampled.",
 ["lib/src/colourfit/single.rs", "lib/src/colourfit/single_lut.rs"], [("lookup tables and source selection", "lib/src/colourfit/single.rs")],
 "All colours; masks as stated.")
prop("C11", "Irrelevant input bytes never influence a compressed block",
 "A compressed block does not depend on pixels disabled by the mask or on channels the format does not store (green, blue and alpha for BC4, blue and alpha for BC5). It does not depend on the colour of transparent pixels in BC1, nor do the colour half and the alpha half of BC2 and BC3 depend on each other's channels unless colour is to be weighted by alpha.",
 ["inputs", "configurations"], "all pairs of pixel data that agree on the relevant bytes",
 "A two-run (relational) property over all inputs; no test compares two runs.",
 ["lib/src/colourset.rs", "lib/src/alpha.rs", "lib/src/lib.rs"], [("mask handling", "lib/src/colourset.rs, lib/src/alpha.rs"), ("channel selection", "lib/src/lib.rs compress_block_masked")],
 "Bounds as stated.")
prop("C12", "Block compression and decompression never fail and fill exactly one block",
 "For all pixel data, masks, formats, algorithms and finite weights in range, block compression terminates without panic, overflow or out-of-range access and overwrites all bytes of the block and nothing beyond it; block decompression of any bytes never fails either.",
 ["inputs", "configurations"], "all pixel data and masks, formats, algorithms, weights",
 "Tests run a handful of blocks; degenerate clusters, empty masks and zero-variance blocks are never reached.",
 ["lib/src"], [("index arithmetic of the fits", "lib/src/colourfit"), ("bit packing", "lib/src/alpha.rs, lib/src/colourblock.rs")],
 "Floating point over-approximated; bounds as stated.")
prop("C18", "Range fit never leaves the colour range of its input",
 "In a block of at least two colours compressed to BC1, BC2 or BC3 with the range fit and decompressed, every enabled pixel (opaque, for BC1) has each channel within the minimum and maximum of that channel over these pixels, widened by at most half a quantisation step: 4 for red and blue, 2 for green. This holds for all weights.",
 ["inputs", "configurations"], "all pixel data, weights in range",
 "Quantified over all blocks and all outcomes of the floating-point axis computation; the tests compress a few fixed blocks.",
 ["lib/src/colourfit/range.rs", "lib/src/colourblock.rs"], [("endpoints are input points rounded to the grid", "lib/src/colourfit/range.rs"), ("quantisation and endpoint order", "lib/src/colourblock.rs")],
 "Floating-point comparisons over-approximated as arbitrary, endpoint rounding exact; masks and layouts of equal colours as stated.")
prop("C19", "Compound formats are exactly their parts",
 "A BC5 block is the BC4 block of the red channel followed by the BC4 block of the green channel, and a BC3 block starts with the BC4 block of the alpha channel. BC2 and BC3 carry the same colour block for the same pixels, and decoding each half separately gives the same values as decoding the whole.",
 ["inputs", "configurations"], "all pixel data, masks and blocks",
 "A relation between runs over all inputs; tests compare fixed bytes only.",
 ["lib/src/lib.rs", "lib/src/alpha.rs"], [("format dispatch", "lib/src/lib.rs compress_block_masked, decompress_block")],
 "Bounds as stated.")
prop("C20", "BC2 and BC3 colour halves decode alike under either mode rule",
 "In every block compressed to BC2 or BC3 with any algorithm and weights, the colour half's first endpoint is not smaller than its second, and if they are equal all indices are 0. So decoders that choose between four and three colours by endpoint order, as BC1 does, and decoders that always use four colours give the same opaque pixels.",
 ["inputs", "configurations"], "all pixel data and masks, algorithms and weights",
 "The tests decode with this library only, which ignores the order in BC2 and BC3; equal endpoints with several colours need specific near-equal colours.",
 ["lib/src/colourblock.rs", "lib/src/colourfit"], [("endpoint order and equal endpoints", "lib/src/colourblock.rs write4"), ("mode choice while decoding", "lib/src/colourblock.rs decompress")],
 "Floating point over-approximated; bounds as stated.")
prop("C13", "Blocks of two representable colours are reproduced (almost) exactly",
 "A block whose enabled opaque pixels take exactly two colours that are both exactly representable in 5:6:5 is reproduced exactly by the range fit and within one level per channel by the cluster fits.",
 ["inputs", "configurations"], "all pairs of 5:6:5 colours, all distributions over the block",
 "Tests have no such family; principal-axis degeneracies (found: axis orthogonal to (1,1,1)) occur for specific pairs only.",
 ["lib/src/math.rs", "lib/src/colourfit"], [("principal axis", "lib/src/math.rs"), ("endpoint selection", "lib/src/colourfit")],
 "", claimed=False, reason="needs the exact outcome of the float power iteration (eight normalised 3x3 matrix-vector products over symbolic colours and weights) and of comparisons of sums of squares; a bit-precise z3 query for a simplified version (two colours, a single step of the iteration, equal projections) did not end within 600 s, and the abstraction used elsewhere (arbitrary comparison outcomes) loses exactly what the property is about. The part that holds for every outcome is C18; one-colour blocks are C10.")
prop("C14", "Parallel and sequential image compression give identical results",
 "With the parallel feature enabled, compressing or decompressing an image gives byte for byte the result of the sequential build, whatever order and interleaving the rows are processed in.",
 ["schedules", "inputs"], "all orders in which row tasks can run",
 "The test suite is built without the feature and samples no schedule.",
 ["lib/src/lib.rs"], [("row-parallel chunk iteration", "lib/src/lib.rs compress, decompress")],
 "Both builds are executed symbolically, the parallel one over a rayon stub that processes the items in a symbolic order (all permutations of up to 4 rows); dimensions enumerated up to the stated bound; the block routines are uninterpreted functions.")
prop("C15", "The command line's compression output describes and contains the image",
 "Compressing a PNG or JPEG file on the command line writes, to the named file or by default to the input's name with extension dds in the current directory, a DDS container of a single 2D texture with the image's width and height. Its DXGI format is the sRGB one for BC1 to BC3 and the UNorm one for BC4 and BC5, and its data are exactly the library's compression of the pixels with the profile's algorithm (speed: range fit, balanced: cluster fit, quality: iterative cluster fit), the given alpha weighting and the three given colour weights (perceptual ones by default). Any other number of weights and any other file type is refused.",
 ["inputs", "configurations"], "all images, formats, profiles and weight choices",
 "The only test of the command line checks its option declarations; no file is ever compressed.",
 ["cli/src/main.rs"], [("options to parameters", "cli/src/main.rs main"), ("container construction", "cli/src/main.rs compress_file")],
 "The program's own code runs over stub crates for png, jpeg-decoder and clap and a stand-in for std::fs; image dimensions enumerated up to the stated bound; block compression is an uninterpreted function.")
prop("C16", "The command line decompresses containers to exactly the decoded pixels",
 "Decompressing a DDS file on the command line selects the library format its header names: the sRGB DXGI formats of BC1 to BC3, the UNorm ones of BC4 and BC5, and the FourCCs DXT1, DXT3 and DXT5. It writes an 8-bit RGBA PNG of the header's width and height with exactly the pixels the library decodes from the stored data, ignoring data beyond the first image, to the named file or by default to the input's name with extension png in the current directory. Files in any other format, of other than 2D textures, with a damaged header or with missing data are refused.",
 ["inputs", "configurations"], "all header contents and data",
 "No test decompresses a file on the command line.",
 ["cli/src/main.rs", "cli/src/image/png.rs"], [("format mapping", "cli/src/main.rs decompress_file, dxgiformat_to_format, d3dformat_to_format"), ("PNG output", "cli/src/image/png.rs write")],
 "As C15; all header words are variables, dimensions enumerated up to the stated bound.")
prop("C17", "PNG and JPEG input is expanded to the RGBA pixels it represents",
 "Compression on the command line works on the image's pixels as 8-bit RGBA, in order: gray is replicated to red, green and blue, samples of fewer bits are scaled to 0 to 255, of 16-bit samples the high byte counts, palette indices select their colour and its alpha, the tRNS colour becomes transparent, and alpha is 255 where the file has none. JPEG files with gray or RGB pixels are read likewise; those with 16-bit gray or CMYK pixels are refused.",
 ["inputs", "configurations"], "all pixel data of all supported colour types",
 "No test reads an image file.",
 ["cli/src/image/png.rs", "cli/src/image/jpeg.rs"], [("expansion", "cli/src/image/png.rs read, cli/src/image/jpeg.rs read")],
 "As C15; the expansion inside the png crate is a stub (validated against the real crate on each run), what the program does with it is its own code.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks = []; na = []
    for p in sorted(P, key=lambda p: p["id"]):
        impl = os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))
        if p["claimed"] and impl:
            checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        else: na.append({"property": p["id"], "reason": p["reason"] or "not built yet"})
    m = {"version": 1, "setup_cmd": "python3-vt engine/build.py", "checks": checks, "not_applicable": na,
         "notes": "Solver-based checking of the real code: /repo's library is compiled to LLVM IR on every run, executed symbolically by engine/symex.py, and the property is decided by z3. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
    for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
main()
