"""Property table: the source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (python3 meta/gen.py)."""
PROPS = []
def P(id, title, statement, qtext, why, files, mech, how, level_note, over=("inputs",), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), how=how, level_note=level_note, na=na))
CORE = "modules/core/src/c_src/"; PROC = "modules/process/src/c_src/"; ALG = "modules/algorithm/src/"
NOTE = "Bounded: exhaustive over the symbolic inputs within the bounds named in the evidence; nothing is claimed outside them. Trusts clang's front end, z3, the executor in engine/ (self-tested, and every case replays a solver witness through the gcc build) and the libc model."

P("P01", "Interleave conversions only permute the cube and are exactly invertible",
  "Converting a hyperspectral cube between the band-sequential, band-interleaved-by-line and band-interleaved-by-pixel layouts keeps the value of every (line, sample, band), the dimensions, the element type and the wavelengths, for every shape and element type, and sets the result's layout name. The out-of-place conversions leave the input alone and return an independent cube (an equal copy when the input already has the wanted layout); the in-place conversions do the same in the cube's own storage and keep no memory. Converting there and back restores every byte.",
  "every cube shape (also very elongated ones), every element type, every pixel and wavelength byte, all ordered pairs of layouts, in place and out of place",
  "The repository's tests never convert a cube; an index formula that is right for cubes with equal sides is wrong for others, so it needs all shapes and all contents.",
  [PROC + "imageprocess.c"], [("six out-of-place conversions and three in-place ones", PROC + "imageprocess.c")],
  "Cube with every pixel/wavelength byte symbolic and a solver-chosen shape is converted by the real functions; the result is compared at a symbolic byte index with the layout formula of the interleave's definition; round trips, input preservation, in-place storage and heap balance are asserted too.", NOTE)
P("C01", "Creating a cube yields exactly what was asked for, in its own memory",
  "Creating a cube with positive sizes and a supported element type returns a non-empty cube with exactly those dimensions, type and layout, whose pixel and wavelength storage start on 64-byte boundaries, have room for every element and overlap neither each other nor the cube's header; the contents are an independent copy of the caller's data, or zero where none was given. Deleting the cube, in any state of the heap, releases everything it holds, exactly once. Non-positive sizes and unknown element types never yield a cube, and the element-size lookup returns the type's size for the nine supported codes and nothing positive for any other.",
  "all nine element types, three layouts, every shape, heap addresses, caller data with or without pixels and wavelengths, and all invalid arguments",
  "Tests create a few fixed small cubes; alignment depends on the address malloc happens to return, and layout on sizes no test uses.",
  [CORE + "hypermat.c"], [("cube creation, deletion and element size", CORE + "hypermat.c")],
  "Real create/delete run under the executor's exact heap with the address residue modulo 64 as a choice; every byte read/written is bounds-checked and compared with the caller's symbolic bytes; invalid arguments are symbolic ints.", NOTE)
P("C02", "Copying a cube yields an equal and independent cube",
  "Copying a cube gives the same dimensions, type, layout, pixels and wavelengths in storage of its own, so that changing or deleting either one leaves the other intact. Copying into an existing cube of the same dimensions and type overwrites its pixels, wavelengths and layout but keeps its own storage; copying only the wavelengths changes nothing else, and does nothing when the source has none. Destinations whose dimensions or type do not match are refused, and copying nothing yields nothing.",
  "every shape, element type and layout pair, every pixel and wavelength byte, every single mismatch of a destination",
  "Tests copy one fixed cube and look at a few fields.",
  [CORE + "hypermat.c"], [("copy, copy-to and copy-wavelength", CORE + "hypermat.c")],
  "Symbolic contents are copied by the real functions; equality at a symbolic byte, storage disjointness, post-mutation and post-deletion survival and heap balance are asserted; mismatching destinations are enumerated as solver choices and must stop.", NOTE)
P("C03", "Creating, copying and deleting 2-D images is exact and leak-free",
  "Creating a 2-D image with positive rows, columns and channels and a supported element type returns an image with exactly that shape, type and element size, all of whose pixels are zero and start on a 64-byte boundary; created around a caller's buffer it uses that very buffer. A copy is equal in every pixel of every channel and independent of its source. Deleting an image, whether its pixels were allocated by the library or handed over by the caller and wherever on the heap they lie, releases the image and its pixels exactly once; arguments outside the contract never yield an image.",
  "all element types, channel counts, shapes, heap addresses and pixel contents, and all invalid arguments",
  "Tests create a couple of one-channel images; whether deletion frees the right pointer depends on the address the allocator returns.",
  [CORE + "simplemat.c"], [("image creation, adoption, copy and deletion", CORE + "simplemat.c")],
  "As for cubes: real code on the executor's exact heap, address residues as choices, symbolic pixels, symbolic invalid arguments.", NOTE)
P("C08", "Image statistics are computed over every pixel of the image and change nothing",
  "The mean of a one-channel image (8-, 16-, 32-bit integer, float or double) is the sum of all its pixels over their number, and its variance the mean squared deviation from that mean, negative values included. The grey-level statistics of an 8-bit image give for each of the 256 levels the number of pixels at that level, its entropy is that of this distribution, and its contrast is the mean squared difference of horizontally and vertically adjacent pixels; three-channel images are treated as their default grey conversion. None of them modifies the image, writes outside its outputs or keeps memory.",
  "all image shapes, all supported element types, all pixel values",
  "Tests print statistics of one picture without asserting them.",
  [CORE + "simplemat.c"], [("mean, variance, grey-level statistics, entropy and contrast", CORE + "simplemat.c")],
  "Symbolic pixels; results compared with the definition evaluated on the same symbolic values (exact equality of float terms up to the usual evaluation orders where sums are exact; tolerance where they are not); the histogram is compared at a symbolic level.", NOTE)
P("C09", "Dynamic arrays and structuring elements behave like plain lists and grids",
  "Under any history of pushes, pops, erasures, fills and frees a dynamic array holds exactly the elements a plain list would, in order, and reports its size, emptiness, begin and end accordingly, with a capacity never below its size; popping an empty array or erasing past the end does nothing. A structuring element has the requested width and height and either all ones or the caller's pattern, and deleting it never frees a pattern the caller owns. Freeing either of them releases everything.",
  "all operation histories, element types and values; all element sizes",
  "Tests push a few integers in one fixed order; the array's bookkeeping depends on the history of operations.",
  ["modules/core/include/c_include/vector.h", CORE + "struct_2D.c"], [("dynamic array macros", "modules/core/include/c_include/vector.h"), ("structuring element creation and deletion", CORE + "struct_2D.c")],
  "Bounded model checking of operation histories: each step's operation, index and value are symbolic and the real macros run against a list model.", NOTE, over=("histories", "inputs"))
P("P02", "Extracting a range of a cube returns exactly the requested sub-cube",
  "For any non-empty ranges of lines, samples and bands inside a cube (start included, end excluded) the result has the size of the ranges, keeps the element type, the layout and the wavelengths of the selected bands, and its every element equals the source element shifted by the range starts, in all three layouts. The result is independent of the source, which is not changed. Ranges that are empty, reversed or reach outside the cube are refused.",
  "every range of every cube shape, all layouts and element types, all contents, all invalid bounds",
  "The tests never extract a range; an offset formula that works for one layout or for ranges starting at zero fails elsewhere.",
  [PROC + "imageprocess.c"], [("sub-cube extraction in the three layouts", PROC + "imageprocess.c")],
  "Symbolic cube, every range chosen by the solver; result compared at a symbolic byte with the source element formula; invalid bounds are symbolic ints and must stop.", NOTE)
P("P03", "Bands, reshapes, splices and sums of images move exactly the elements asked for",
  "Taking band k of a band-sequential cube yields an image of lines x samples with exactly that band, whatever bigger image was there before, and writing an image into band k replaces exactly that band; one undoes the other. Reshaping a cube into rows x columns keeps all elements in order, in storage of its own. Splicing a part into a cube at an element index replaces exactly the part's elements from there. Adding two images adds pixel by pixel over their common rows and columns, channel by channel, and writes nothing else. Band numbers, layouts, sizes and types that do not fit are refused, sources stay unchanged and no memory is kept.",
  "all shapes, element types, bands, start positions and contents; all mismatching arguments",
  "Tests move one band of one file; index arithmetic must be right for every band, shape and type.",
  [PROC + "imageprocess.c"], [("band extraction and insertion, reshape, splicing, addition", PROC + "imageprocess.c")],
  "Symbolic contents run through the real functions; the destination is compared at a symbolic byte with the expected placement; canary bytes detect writes beyond; invalid arguments must stop.", NOTE)
P("P04", "Transposition, flips and rotation move every pixel to its geometric place",
  "Transposing an image (all channels) or a band-sequential cube moves element (i, j) to (j, i); flipping mirrors rows, columns or both; doing either twice restores the image exactly. Rotating a cube gives a by-pixel cube that is the bounding box of the turned image (sides rounded up to even numbers first), in which every pixel is the whole spectrum of the source pixel that the rotation about the centre moves onto it, or zero where no source pixel lands; right angles lose no pixel of an even-sized cube; type, bands and wavelengths are kept. Sources keep their values, nothing outside the results is written, no memory is kept, and mismatching destinations are refused.",
  "all shapes, element types, channel counts, contents, flip codes; right and general angles",
  "Tests rotate one picture and display it; swapped dimensions show only on non-square inputs and specific angles.",
  [PROC + "GeometricTransformation.c", PROC + "imageprocess.c", PROC + "spectralprocess.c"], [("rotation and flips", PROC + "GeometricTransformation.c"), ("image transposition", PROC + "imageprocess.c"), ("cube transposition", PROC + "spectralprocess.c")],
  "Symbolic contents and solver-chosen shapes; for each destination pixel the solver decides that it equals the source spectrum the geometric definition puts there (either neighbour accepted when the image of the pixel falls on a pixel edge).", NOTE)
P("P05", "Element type conversions keep values, rounding and saturating where needed",
  "Widening an 8-bit or unsigned 16-bit cube to a larger integer or float type keeps every value exactly. Converting a float cube to a signed or unsigned 8-, 16- or 32-bit cube gives each element the nearest integer (ties to the even one) or, outside the target's range, the nearest end of the range; the same holds for converting float images to 8 bits. Dimensions, layout, channels and wavelengths are kept, the source is unchanged, and sources of any other type are refused. Decimal text - signed, with or without fraction and exponent, surrounded by blanks or followed by other text - is read as the number it denotes.",
  "all values of the source type (except NaN), all shapes and layouts, all digits of numbers in the usual notations",
  "Tests convert one cube without checking a value; rounding and saturation errors appear only at particular values.",
  [PROC + "datatypechange.c"], [("cube and image type conversions", PROC + "datatypechange.c"), ("decimal text to number", PROC + "datatypechange.c")],
  "Every source element symbolic; for narrowing one element ranges over all single-precision values (bit-precise SMT floating point), compared with the definition of rounding and saturation; text is built from a format with symbolic digits.", NOTE)
P("P09", "Erosion, dilation, opening and closing follow the structuring element",
  "Eroding an 8-bit image turns a pixel to zero when any pixel under a set cell of the structuring element centred on it is zero, and keeps it otherwise; dilating gives a zero pixel the value one when any pixel under a set cell is non-zero, and keeps non-zero pixels; pixels so close to the border that the element would leave the image keep their value, and an element larger than the image changes nothing. Opening is erosion then dilation and closing dilation then erosion, as many times as requested, starting from the source. Source and element stay unchanged and no memory is kept.",
  "all pixel values, image shapes, element sizes and patterns, and iteration counts",
  "The tests run one picture without an oracle; only particular pixel neighbourhoods at particular distances from the border distinguish a wrong window.",
  [PROC + "morphology.c"], [("erosion, dilation, opening, closing", PROC + "morphology.c")],
  "Symbolic pixels and element cells; the solver compares the result at a symbolic pixel with the definition.", NOTE)
P("P10", "Thresholding applies the selected rule to every pixel; Otsu is optimal",
  "Thresholding an 8-bit image sets each pixel according to the selected rule - binary, inverted binary, truncation, to-zero or inverted to-zero - comparing with strictly-greater-than, both through the dispatcher and through the named functions, into another image or in place. The Otsu threshold of an image with at least two levels maximises the variance between the two classes, and thresholding with it turns pixels above it white and the others black. Source pixels stay unchanged unless the destination is the source, and images of another type, shape or channel count and unknown rules are refused.",
  "all pixel values, thresholds and maximum values; level combinations for Otsu",
  "Tests threshold one picture with one value; boundary values equal to the threshold and Otsu ties need particular inputs.",
  [PROC + "threshold.c"], [("threshold rules and Otsu", PROC + "threshold.c")],
  "Symbolic pixels, threshold and maximum compared with the rule's definition; Otsu levels are solver choices and the result is compared with the exact integer form of the between-class variance.", NOTE)
P("P11", "Colour conversions compute the documented grey value and expansion per pixel",
  "Converting a three-channel 8-bit image to grey gives each pixel the average, the maximum or the weighted sum 0.299 R + 0.587 G + 0.114 B of its channels, to within the rounding of one grey level; expanding a grey image copies the value to all three channels, expanding a binary image gives white for every set pixel and black otherwise, and exchanging the first and third channel is undone by doing it again. Sources stay unchanged, nothing outside the result is written, no memory is kept, and images with another number of channels (or another shape or type) are refused.",
  "all pixel values and image shapes",
  "Tests convert one picture without comparing values.",
  [PROC + "colortransform.c"], [("grey conversion, expansion, channel exchange", PROC + "colortransform.c")],
  "Symbolic pixels; each result pixel compared with the definition by the solver in integer arithmetic.", NOTE)
P("P12", "Radiometric correction multiplies every pixel by its own coefficient",
  "Relative radiometric correction of an unsigned 16-bit by-pixel cube multiplies every pixel by the coefficient of its band and detector column (coefficients stored band after band); absolute correction of a float by-pixel cube multiplies by the coefficient of its band. The result is a float by-pixel cube with the same dimensions and wavelengths; source and coefficients are unchanged, and cubes of another type or layout are refused.",
  "all pixel values and coefficients, all cube shapes",
  "Tests never run a correction; confusing the band and column strides is invisible for equal sizes or equal coefficients.",
  [PROC + "RadiometricCalibration.c"], [("relative and absolute correction", PROC + "RadiometricCalibration.c")],
  "All pixels and coefficients symbolic; each result element is compared with the product of exactly its pixel and coefficient.", NOTE)
P("C04", "Saving a cube and reading it back yields the same cube",
  "Saving a cube writes a file holding exactly its pixels in their order and, beside it under the same name plus .hdr, an ENVI header with its samples, lines, bands, data type, interleave and wavelengths, replacing files of these names; reading the pair back gives a cube with the same dimensions, type, layout and pixels and the wavelengths to the six decimals printed. Neither changes the cube, leaves a file open or keeps memory.",
  "all shapes, element types, layouts, pixel contents and file names; wavelengths of many magnitudes",
  "Tests read one bundled file; a write/read pair that disagrees on one field, or buffers sized for one file name, needs other types, shapes and names.",
  [CORE + "hypermat.c"], [("saving, header writing and reading", CORE + "hypermat.c")],
  "Symbolic cube saved by the real code into modelled files, whose bytes are compared, then read back by the real reader; file handles and heap are accounted.", NOTE)
P("C05", "ENVI headers in the usual notations are read correctly",
  "A header giving samples, lines, bands, data type and interleave in any order, with any spacing around the equals sign, with Unix or Windows line ends and among other ENVI keys, yields a cube with these dimensions, type and layout and the pixels of the image file in order; the numbers of a wavelength list - on one line or several, with or without blanks, even longer than any line buffer - become the wavelengths of the bands in order, bands without an entry get zero, and surplus entries are ignored. A missing file yields no cube; a header whose sizes or type are missing, non-positive or unknown is refused. No file stays open and no memory is kept.",
  "header layouts, digits of every number, wavelength list layouts and lengths, other keys and their places",
  "Tests read one header; parsers fail on key order, line breaks and list lengths no sample file has.",
  [CORE + "hypermat.c"], [("header parsing", CORE + "hypermat.c")],
  "Header text is generated from a grammar with symbolic digits and pixel bytes, parsed by the real reader in modelled files; every field is compared with the intended value.", NOTE)
P("C06", "Bitmaps are written and read exactly",
  "Writing an 8-bit image of one or three channels produces a 24-bit uncompressed bitmap with correct sizes, rows bottom-up and padded to four bytes, blue first; reading it back gives the image (grey expanded to three equal channels). Reading any uncompressed bottom-up 24-bit bitmap, or 8-bit bitmap with a palette of any length, gives the picture it describes in red, green, blue order. Writing does not change the image; no file stays open and no memory is kept; other depths, element types and channel counts and missing files are refused.",
  "all image sizes (every row padding), all pixel, padding and palette bytes, all palette lengths",
  "Tests read a bundled bitmap whose width needs no padding; padding and palettes need other widths and files.",
  [CORE + "simplemat.c"], [("bitmap reading and writing", CORE + "simplemat.c")],
  "Bitmap files with symbolic pixel, padding and palette bytes are built in modelled files and read by the real code; written files are compared with the format definition byte by byte.", NOTE)
P("C07", "Raw images and cubes are read exactly as laid out in the file",
  "Reading a raw file with given sizes, type, channels or layout returns a cube (or image) of exactly that shape and type whose elements are the file's bytes in order, from its start, with wavelengths zero; surplus bytes are ignored. The file is closed and nothing but the result is kept (deleting it releases everything). Non-positive sizes and unknown types are refused; a missing file yields no cube, and no image.",
  "all shapes, element types, channel counts and file contents; all invalid sizes and types",
  "Tests read a bundled file; wrong element sizes or byte counts show only for other types.",
  [CORE + "hypermat.c", CORE + "simplemat.c"], [("raw cube reader", CORE + "hypermat.c"), ("raw image reader", CORE + "simplemat.c")],
  "Modelled files with symbolic bytes read by the real code; result compared at a symbolic byte, handles and heap accounted.", NOTE)
P("C10", "The C++ cube class creates, copies, converts, cuts and stores cubes exactly",
  "A C++ cube created with positive sizes, a supported type and a known layout has exactly these, its matching layout letters and sizes, and zero (or the caller's) pixels and wavelengths; creating again and releasing free the old storage, and releasing twice is harmless. Its copies and the results of layout conversions and range extractions are equal element by element in the new place, keep the (selected) wavelengths, and are independent of the source, which is unchanged; in-place conversion there and back restores every byte. Saving and opening round-trips, agrees with the C reader and writer, reads headers with keys in any order and comma-separated or multi-line wavelength lists, and leaves no file open. Invalid sizes, types, layouts and ranges are refused, and missing files or paths leave no foreign data.",
  "all shapes, element types, layouts, contents, ranges and header notations; all invalid arguments",
  "No test exercises the C++ class beyond one file.",
  ["modules/core/include/cxx_include/hypermat.hpp", CORE.replace("c_src", "cxx_src") + "hypermat.cpp"], [("cube class", "modules/core/include/cxx_include/hypermat.hpp"), ("conversions and header reading", CORE.replace("c_src", "cxx_src") + "hypermat.cpp")],
  "The class's real C++ code is compiled to IR with real std::string and stand-ins for streams and GDAL, and run on symbolic contents like the C cube; results are compared at symbolic bytes.", NOTE)
P("P06", "Border positions and bordered images follow the border type",
  "A position outside a row of any length is mapped, for the replicate, reflect, wrap and reflect-101 border types, to the position inside the row that the type's definition names, however far outside it lies, and for the constant type to some position inside; inside positions stay. Adding a border of any non-negative size on each side gives a new image of the enlarged shape and the same type and channels, whose inner part is the source and whose border pixels are the mapped source pixels, or the given value in every byte for the constant type. The source is unchanged and independent of the result; negative sizes and unknown types are refused.",
  "every row length and position, all border sizes (also wider than the image), types, channels and pixel contents",
  "Tests border one image by a few pixels; far positions, rows of one pixel and wide element types need others.",
  ["modules/core/include/c_include/type.h", PROC + "filter.c"], [("border position", "modules/core/include/c_include/type.h"), ("adding a border", PROC + "filter.c")],
  "The real border function runs on symbolic position and length and is compared with a closed-form definition (modulo the period); bordered images of symbolic bytes are compared pixel by pixel with that definition.", NOTE)
P("P07", "Smoothing filters and integral images compute their definitions at every pixel",
  "At every pixel of every channel of an 8-bit image, also at the borders: the 2-D filter yields, as float, the sum of the kernel's coefficients times the pixels under it (kernel centred, outside pixels by border type), for one or three channels; Gaussian blur yields the weighted mean by row and column Gaussian kernels to the nearest grey level, and leaves a constant image as it is; blurring with given kernels filters rows, then columns, limiting each to 0..255. Gaussian kernels are non-negative, symmetric, sum to one and follow the given spread (without one, the standard small kernels for odd lengths up to 7, otherwise a spread derived from the length). For one-channel images, median blur yields the median of the odd window where it fits and copies the rest, mean blur the whole part of the mean of the window inside the image, and the integral image the sum of all pixels above and to the left. Sources and kernels are unchanged, nothing is retained, and wrong sizes, types, channels and border types are refused.",
  "all pixel contents, image shapes (smaller than the window too), window sizes, kernels, spreads and border types",
  "Tests blur one picture and look at nothing but success; errors at borders, in one channel or for even windows need other inputs.",
  [PROC + "filter.c"], [("2-D filter, median, mean, Gaussian, integral", PROC + "filter.c")],
  "The real filters run on symbolic pixels (and coefficients); float sums of integers and dyadic fractions are decided exactly by the executor's fixed-point normal form and z3, independent of evaluation order; the median is decided by counting.", NOTE)
P("P08", "Edge filters mark what their definition says at every pixel",
  "On a one-channel 8-bit image of any size, the Laplacian yields at every pixel the sum of the four neighbours minus four times the pixel (twice that for kernel size 2), limited to 0..255, and the Sobel operator yields white exactly where the absolute horizontal or vertical gradient exceeds the threshold and black elsewhere, outside pixels being taken by the border type. The source is unchanged and nothing is retained; for Sobel other channel counts, different shapes and unknown border types, for the Laplacian non-positive kernel sizes and unknown border types are refused.",
  "all pixel contents, image shapes down to one pixel, thresholds, kernel sizes and border types",
  "Tests run both on one picture without looking at the result; sign, border and saturation errors need particular pixels.",
  [PROC + "gradient.c"], [("Laplacian and Sobel", PROC + "gradient.c")],
  "Every pixel and the threshold symbolic; the real functions' outputs are compared per pixel with integer definitions over the border definition.", NOTE)
P("P16", "The image pyramid halves and doubles images by Gaussian interpolation",
  "Going down one level turns an 8-bit image of at least 2 by 2 pixels with one or three channels into the image of half its sides (rounded up) whose pixels are the even rows and columns of the source smoothed with the standard 5 by 5 Gaussian (the image continued by its edge pixels), to the nearest grey level. Going up one level yields the image of twice its sides in which every pixel is the weighted mean of the source pixels around it (the Gaussian applied to the source spread over the even rows and columns, with the weights doubled along each axis so that they sum to one at every pixel, at the border too), so that an image of one colour keeps its colour. The source is unchanged, nothing but the result is written and nothing is retained; missing or smaller images, other element types and channel counts, and results of another shape, type or channel count are refused.",
  "all pixel contents, image shapes with even and odd sides, one and three channels",
  "Tests enlarge and shrink one picture without looking at the result; errors at odd sides, at the border or in one channel need other images.",
  [PROC + "GeometricTransformation.c", PROC + "filter.c"], [("pyramid", PROC + "GeometricTransformation.c")],
  "The real pyramid functions (with the real Gaussian filter and border function) run on symbolic pixels; the float sums of dyadic weights are exact in the executor's fixed-point normal form and compared per pixel with integer sums over the definition.", NOTE)
P("P13", "Matrix operations compute their algebraic definitions",
  "For every supported element type and every shape, the matrix product yields at each place the sum of the products of a row and a column in the element type's arithmetic, the correlation yields that sum divided by the common length, and transposing exchanges rows and columns, all leaving their operands unchanged and writing nothing else. On float matrices: exchanging rows, scaling a row and adding a multiple of a row to another change exactly that row (rows outside the matrix, or the same row twice, are refused); the norm is the root of the sum of squares; for a regular matrix, matrix times computed inverse is the identity, also where a leading entry is zero; the QR decomposition yields an orthonormal and an upper triangular factor with the matrix as product; the eigenvectors for given distinct eigenvalues have unit length and are scaled by the matrix by their eigenvalue (where elimination meets no zero pivot). Nothing is retained.",
  "all matrix contents, shapes and element types; small integer matrices for the decompositions",
  "Tests multiply and invert one matrix each; shapes with unequal sides, wrapping types and zero pivots need others.",
  [PROC + "matrixprocess.c"], [("products, inverse, QR, eigenvectors", PROC + "matrixprocess.c")],
  "The real routines run on symbolic matrices; products are compared in bit-vector and fixed-point arithmetic, decompositions by multiplying back for every combination of small integer entries.", NOTE)
P("P14", "Means, sorting, factorials and logarithms compute their definitions",
  "The mean of a vector of any of the eight element types is its sum divided by its length, to float precision (double for doubles); sorting an array yields exactly its values in falling order; the factorial of a number up to 20 is its exact product, and -1 for negative numbers; the logarithm of a float image is the natural logarithm of every value of every channel, in place too, other types and shapes being refused. Operands are unchanged and nothing is retained.",
  "all vector contents, lengths and types; all orders and ties in sorting; all image shapes",
  "Tests call one or two of these on one input; an accumulator too narrow for its type or a tie needs particular values.",
  [PROC + "mathprocess.c", PROC + "imageprocess.c"], [("means, sorting, factorial", PROC + "mathprocess.c"), ("logarithm of an image", PROC + "imageprocess.c")],
  "The real functions run on symbolic values; sums are compared exactly (integers, fixed point), sorting by counting occurrences at every place.", NOTE)
P("P15", "Spectral statistics, angles and matching compute their definitions",
  "The average of a spectrum of any length is its sum divided by its length, the variance the mean squared deviation from it, the standard deviation its root and the distance of two spectra the root of the sum of squared differences. The spectral angle of two non-negative spectra with some signal is the arc cosine of their normalised product: between 0 and pi/2, the same in either order, zero for proportional spectra and pi/2 for spectra without common bands. Matching a float by-pixel cube yields a one-channel 8-bit image of its lines and samples, 1 exactly where the pixel's angle to the given spectrum is at most the threshold, else 0; the mean image holds the average of each pixel's bands. Reading a spectrum file yields its first numbers in order, in any usual notation and spacing, and zeros past the last number. Operands are unchanged, files closed, nothing but the result retained; other types, layouts and shapes, missing operands and files are refused.",
  "all spectra lengths, values and thresholds, cube shapes, spectrum file contents",
  "Tests match one cube against one spectrum without looking at the image; angles near zero, thresholds on the boundary and short files need others.",
  [PROC + "spectralprocess.c"], [("angle, matching, statistics, spectrum files", PROC + "spectralprocess.c")],
  "The real functions run on symbolic spectra; sums are decided exactly, roots and arc cosines through structural equality or exact tables over the symbolic entries; spectrum files are built from symbolic digits in modelled files.", NOTE)
P("A01", "Histogram equalisation and band stretching compute their definitions",
  "Equalising a one-channel 8-bit image gives every pixel 255 times the share of pixels not brighter than it, rounded down, so equal pixels stay equal and brighter ones never become darker. Linear stretching of a float band-sequential cube maps each band's own range linearly to 0..255, each value to within rounding: results not above zero become 0 for pixels of value zero and 1 otherwise, and a constant band needs no special care. Sources are unchanged, nothing else is written or retained; other types, layouts and shapes are refused.",
  "all image shapes, histograms and grey levels; all band ranges, signs and magnitudes",
  "Tests equalise one picture; the darkest and brightest levels, one-pixel and constant images and negative bands need others.",
  [ALG + "HisEqualization.c"], [("equalisation and stretching", ALG + "HisEqualization.c")],
  "Images with arbitrary pixels run through the real code; each result pixel is compared with the definition, integer and float terms over few arbitrary bits being decided through exact tables.", NOTE)
P("A02", "Normalisation scales by the norm or to the limits asked for",
  "For 8-bit and float images of any shape and channel count, normalising yields every value times alpha divided by the L1, L2 or infinity norm (the largest absolute value) of the whole image over all channels; min-max normalising maps the smallest value to the lower and the largest to the higher of the two limits, in whichever order they are given, and all others linearly between. 8-bit results are rounded to the nearest and limited to 0..255, float results keep float precision. Sources are unchanged (also valid in place), nothing else is written or retained; differing shapes, channels or types and missing images are refused.",
  "all image shapes and contents, both types, four norms, limits in either order",
  "Tests normalise one picture; several channels, negative floats, swapped limits and single pixels need others.",
  [ALG + "normalize.c"], [("normalisation", ALG + "normalize.c")],
  "The real code runs on images with arbitrary values; every result is compared with the definition in double precision through exact tables over the arbitrary bits.", NOTE)
P("A03", "The Fourier transform and its inverse compute their definitions",
  "The discrete Fourier transform of a one-channel 8- or 16-bit image of any size yields, to float accuracy, the real and imaginary part of the sum of the pixels times exp(-2 pi i (ux/rows + vy/cols)); the inverse yields the mean of the spectrum times exp(2 pi i ...), rounded and limited to the element type, so transforming there and back restores every image. The spectrum picture is the magnitude of the centred transform divided by the root of the pixel count, rounded and limited; the magnitude is the root of the sum of squares. The optimal transform length is a product of twos, threes and fives, at least the length, the smallest up to 14 million, and -1 for negative or too large ones. Sources are unchanged, nothing is retained; differing shapes, wrong types and channels and missing images are refused.",
  "all image sizes (also rows different from columns), contents and types; all lengths",
  "Tests transform one picture; confused rows and columns, 16-bit pixels and lengths between table entries need others.",
  [ALG + "dft.c"], [("transforms, spectrum, magnitude, lengths", ALG + "dft.c")],
  "The real transforms run on images with arbitrary pixels; outputs and round trips are compared with a double-precision definition through exact tables; magnitudes of arbitrary floats structurally; every table interval of the length search by integer reasoning.", NOTE)
P("A04", "K-means ends with centres that are means of their nearest pixels",
  "Whatever starting places are drawn, clustering the bright (non-zero grey) pixels of an 8-bit image of one or three channels ends, with every centre inside the image and equal to the (rounded down) mean position of the bright pixels nearest to it in the last pass - with threshold zero: to itself as returned - the first of equally near centres counting; a centre without pixels stays where it was. The source and the number of centres are unchanged and nothing is retained; missing images and centre vectors of another size are refused.",
  "all random starting places, pixel patterns, image shapes, numbers of centres and thresholds",
  "Tests run one random start; ties, empty clusters and unlucky starts appear for few of them.",
  [ALG + "cluster.c"], [("clustering", ALG + "cluster.c")],
  "The random draws are replaced by arbitrary values explored exhaustively together with pixel patterns; the returned centres are checked to be a fixed point (threshold zero) or one pass away from centres within the threshold.", NOTE)
P("A05", "Target detection yields the constrained minimum-energy response",
  "For a float cube of any layout and shape and a target spectrum, the detector returns a one-channel float image of its lines and samples whose pixels are x . R^-1 d / (d . R^-1 d), R being the band correlation matrix of all pixels and d the target, so that the target itself yields one (well-conditioned R). The spectrum and the cube's shape and pixel values are unchanged (a cube in another layout may be brought to band-sequential order), nothing but the result is retained; other element types are refused.",
  "all cube shapes, layouts, pixel values and target spectra",
  "Tests detect one target without looking at the result; asymmetric shapes and layouts confuse rows and columns.",
  [ALG + "cem.c"], [("detector", ALG + "cem.c"), ("products and inverse", PROC + "matrixprocess.c")],
  "The real detector runs on cubes with an arbitrary value; every response is compared with a double-precision reference through exact tables.", NOTE)
P("A06", "Shape moments and similarity follow their definition and ignore position",
  "For an 8-bit image with some signal, the seven moments are Hu's invariants of its normalised central moments about the centroid rounded to the nearest pixel, so a shape moved within a larger black image keeps them and transposing the image only changes the sign of the seventh. The similarity of two images is one minus the sum of absolute differences of their moments divided by the sum of absolute sums: one for the same shape anywhere, the same in either order. Images are unchanged, nothing is retained, missing images are refused.",
  "all image shapes and contents, all places of a shape",
  "Tests compare two pictures; confused axes cancel in symmetric shapes.",
  [ALG + "shapematch.c"], [("moments and similarity", ALG + "shapematch.c")],
  "The real code runs on images with arbitrary pixels; moments are compared with an independent double-precision definition through exact tables, and between a shape and its moved or transposed copy.", NOTE)
P("A07", "Edge signal energy is the mean squared response of its kernels",
  "The edge signal energy of a one-channel 8-bit image is the mean over all pixels of the squared sum of the responses of the two 3x3 edge kernels (each divided by six), to float accuracy: zero for constant images, never negative. The image is unchanged and nothing is retained; other types, channel counts and missing images are refused.",
  "all image shapes down to one pixel and all contents",
  "Tests call it on one picture without comparing the value.",
  [ALG + "EdgeSignalEnergy.c"], [("edge signal energy", ALG + "EdgeSignalEnergy.c")],
  "The real code runs on images with arbitrary pixels; the value is compared with the integer definition through exact tables.", NOTE)
P("A08", "Principal components are the centred pixels on the band covariance's axes",
  "For a float by-pixel cube of any shape whose band covariance has distinct eigenvalues (given enough iterations), the result holds for every pixel its principal components: the deviations of its bands from their own means projected on unit eigenvectors of the band covariance, in order of falling variance. So every component has mean zero, different components are uncorrelated, their variances do not increase, and lengths of and angles between centred pixels are those of the source. The source and the wavelengths and type of both cubes are unchanged and nothing is retained; other element types and layouts, a result of another shape and missing cubes are refused.",
  "all cube shapes, band counts, pixel values, offsets and scales with distinct component variances",
  "Tests run it on no cube of known components; one wrong mean or eigenvector still yields plausible numbers.",
  [ALG + "pca.c", PROC + "matrixprocess.c"], [("principal components", ALG + "pca.c"), ("QR iteration, eigenvectors, products", PROC + "matrixprocess.c")],
  "The real transform runs on cubes with an arbitrary value; the defining relations of the result (means, covariances, order, kept inner products) are computed in double precision and decided through exact tables over the arbitrary bits.", NOTE)
P("S01", "Satellite orbits give the position of the broadcast orbit model",
  "From the semi-major axis, eccentricity (up to 0.1), node longitude, argument of perigee, mean anomaly, inclination, their rates, the mean motion correction, six harmonic corrections and the two times, the orbit holds its parameters, the corrected mean motion, the time since the reference time, the anomalies solving Kepler's equation, the harmonic corrections at twice the argument of latitude, and the corrected radius, inclination and node longitude in the rotating frame; the earth-fixed position is that radius turned by them, to within 2e-9 of the axis, at that distance from the centre, the same every time. Nothing but the orbit is retained.",
  "all orbit parameters within the stated ranges, all times around the reference time",
  "No test computes an orbit; a wrong sign or angle shows only for orbits where that term is not zero.",
  ["modules/satellite/src/satellite_orbit.c"], [("orbit and position", "modules/satellite/src/satellite_orbit.c")],
  "The real functions run with each parameter arbitrary in turn; every quantity is compared with an independent solution (Newton's method for Kepler's equation, angle sums instead of the half-angle formula) through exact tables over the arbitrary bits. Encoded and replayed with 64-bit long double.", NOTE)
P("G01", "Drawing marks exactly the intended pixels in the given colour",
  "Drawing points on an 8-bit image yields a copy of the source in which exactly the pixels of the square reaching half the size to each side of every point carry the colour (red in one-channel images; blue, green, red in three channels); drawing a line marks for every step along its longer side the nearest pixel, both ends included, widened by half the thickness to each side across it (red in one-channel images; red, green, blue in three channels). Parts outside the image are left out, wherever the points lie; all other pixels equal the source, which is unchanged (in place too). Nothing is retained; other types, differing shapes and missing images are refused.",
  "all image shapes and contents, colours, point places (far outside too), sizes, thicknesses, slopes and directions",
  "Tests draw one line and some points; steep, reversed, vertical and clipped lines need others.",
  ["modules/highgui/src/draw.c"], [("points and lines", "modules/highgui/src/draw.c")],
  "Every pixel and colour byte is arbitrary and every end and size explored; each result pixel is compared with the geometric definition.", NOTE)
