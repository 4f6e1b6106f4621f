#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
C = "python/aces/clf/"
L = "python/aces/lutFormats/"
A = "python/aces/"

prop("C01", "A ProcessList is the in-order composition of its nodes, pixel by pixel",
 "Processing values through a ProcessList gives what applying its nodes one after the other, in list order, to each pixel gives; an empty list is the identity. Each pixel's result depends on that pixel alone: one call over many pixels (stride = channels per pixel), one call per pixel, any order of the pixels, and verbose or quiet all give the same result. Channels a node is not defined on pass through unchanged, the caller's values are not modified, and calling again gives the same answer.",
 ["programs", "inputs", "histories"],
 "all node sequences up to the depth bound over an alphabet with every node type, all groupings and permutations of a small pixel set with 3 and 4 channels",
 "The tests run one long fixed list on one three-channel pixel; they never use a stride, a fourth channel, a second pixel or another node order.",
 [C+"ProcessList.py", C+"ProcessNode.py", C+"Matrix.py", C+"Range.py", C+"LUT1D.py", C+"LUT3D.py", C+"ASCCDL.py", C+"ExtensionGamma.py", C+"ExtensionLog.py", C+"ExtensionExposureContrast.py"],
 [("ProcessList.process loop", C+"ProcessList.py"), ("per-node stride loop and extra-channel copy", C+"LUT1D.py and every node's process")],
 ["ProcessList.process", "node.process"])

prop("C02", "Bit-depth codes and normalised values convert exactly both ways",
 "For the depths 8i, 10i, 12i and 16i an integer code c stands for c/(2^n-1); for 16f and 32f a value stands for itself. Every pure conversion between two depths follows from this for every code, and converting a code to a float depth, or to a deeper integer depth, and back restores it. Every node that takes or delivers integer codes (Range, CDL, Gamma, Log, ExposureContrast; LUTs on their input side) reads and delivers them by this rule.",
 ["inputs", "configurations"],
 "all 36 (in, out) depth pairs, every integer code of each depth, every node type that scales",
 "The tests visit four depth pairs with one value each.",
 [C+"ProcessNode.py", C+"Range.py", C+"LUT1D.py", C+"LUT3D.py", C+"ASCCDL.py"],
 [("bitDepthToNormalized / normalizedToBitDepth / bitDepthSize", C+"ProcessNode.py")],
 ["Range.process", "bitDepthToNormalized", "normalizedToBitDepth", "ProcessList.process"])

prop("C03", "Range maps, offsets and clamps as its four limits say",
 "With all four limits given a Range maps [minIn, maxIn] linearly onto [minOut, maxOut]; with only the minima or only the maxima it shifts by (out - in); with neither pair it only converts bit depth. Limits are in the codes of the node's own in/out depth; the result is clamped at the output limits that are in force unless the style is given as something other than 'clamp'. The default-range option supplies 0 and 1 (full scale) for the limits that are absent, and switched off it supplies nothing.",
 ["inputs", "configurations"],
 "all subsets of the four limits x styles x default-range settings x depth pairs x inputs below, at, between and above the limits, built by setters or read from a file",
 "The tests build three Ranges, none with all four limits, and check one value.",
 [C+"Range.py"], [("Range.process", C+"Range.py"), ("Range.readChild", C+"Range.py")], ["Range.process", "ProcessList.process"])

prop("C04", "Matrix computes the matrix-vector product plus offset column",
 "A 3x3, 3x4, 4x4 or 4x5 Matrix gives for each output channel the dot product of its row with the input channels, plus the row's last column where the matrix has one more column than rows. Coefficients are used as stored, whatever the bit depths and whatever encoding stored them. Pixels with more channels than the matrix has rows keep the surplus channels.",
 ["inputs", "configurations"],
 "all four shapes, every single coefficient position, mixed dense matrices, 3/4/5-channel pixels, 1-3 pixels per call, all encodings, all depth pairs",
 "The tests use diagonal matrices and one pixel.",
 [C+"Matrix.py", C+"Array.py"], [("Matrix.process", C+"Matrix.py")], ["Matrix.process", "ProcessList.process"])

prop("C05", "1D LUT lookup: index map, clamped linear interpolation, per-channel tables",
 "A 1D LUT maps each of the first three channels: the input code is normalised by its bit depth (or sent through the single or per-channel index map, a clamped piecewise-linear map onto table positions), then looked up in a one- or three-channel table with linear interpolation, clamped at both ends. Interpolation 'cubic' or none given gives the same as 'linear'; table values are delivered as they are, whatever the output depth; NaN and infinite inputs pass through. The LUT's dimensions, values and index maps read back through its getters are those that were set.",
 ["inputs", "configurations"],
 "tables of 2..6 entries x 1/3 channels x interpolations x index-map layouts x depths x inputs on, between and outside all knots",
 "The tests look up one pixel in three small tables.",
 [C+"LUT1D.py", C+"Array.py", C+"IndexMap.py"],
 [("Array.lookup1DLinear / lookup1DCubic", C+"Array.py"), ("IndexMap.process", C+"IndexMap.py"), ("LUT1D.process", C+"LUT1D.py")],
 ["LUT1D.process", "ProcessList.process", "LUT1D.getLUTValues", "LUT1D.getIndexMapValues"])

prop("C06", "Half-domain LUT: every half-float indexes its own entry",
 "In a half-domain 1D LUT every finite or infinite half-float input yields exactly the table entry at that half's 16-bit code (-0.0 and +0.0 included), for one- and three-channel tables, raw-halfs or not, whatever the interpolation. An input between two neighbouring halfs yields the linear interpolation of their entries; values beyond the largest half take its entry or the infinity entry, and NaN takes a NaN entry.",
 ["inputs"], "all 65536 half codes and a point inside every gap between neighbouring halfs",
 "The tests push one pixel through an identity table.",
 [C+"LUT1D.py", C+"Array.py", C+"Common.py"], [("Array.lookup1DHalfDomainInterpolated", C+"Array.py")], ["LUT1D.process"])

prop("C07", "3D LUT lookup: red-major lattice, trilinear and tetrahedral interpolation",
 "A 3D LUT of any (also non-cubic) size, of finite values, returns the stored triple at each lattice point, blue varying fastest, and between lattice points the trilinear or tetrahedral interpolation of the enclosing cell; inputs are clamped to the lattice. Inputs are normalised by bit depth or by the single or per-channel index map onto lattice positions; a missing or unrecognised interpolation name means trilinear. Further channels pass through, and getters return what was set.",
 ["inputs", "configurations"],
 "lattices {2,3,4}^3 x both interpolations x index-map layouts x every cell x fractions that reach all six tetrahedra, their faces, edges and corners, and points outside",
 "The tests use cubic 2x2x2 identity-like tables and one pixel.",
 [C+"LUT3D.py", C+"Array.py", C+"IndexMap.py"],
 [("Array.lookup3D / lookup3DTrilinear / lookup3DTetrahedral", C+"Array.py"), ("LUT3D.process", C+"LUT3D.py")], ["LUT3D.process", "ProcessList.process"])

prop("C08", "ASC CDL: four styles, their keyword aliases and their inverses",
 "A CDL applies slope, offset, power per channel and then saturation around Rec.709 luma: 'Fwd' clamps to [0,1] after offset and at the end, 'FwdNoClamp' never clamps and applies no power to negative values, 'Rev' and 'RevNoClamp' undo the respective forward operation wherever it is invertible. The Autodesk keywords v1.2_Fwd, v1.2_Rev, noClampFwd and noClampRev are aliases of them; parameters that are not given are neutral. A pixel with fewer than three channels, and any channel past the third, is passed through.",
 ["inputs", "configurations"],
 "all style names x parameter alphabets x depth pairs x inputs, including negative and above-one values, and forward-reverse pairs",
 "The tests include one CDL and bypass it.",
 [C+"ASCCDL.py"], [("ASCCDL.process", C+"ASCCDL.py")], ["ASCCDL.process", "ProcessList.process"])

prop("C09", "Gamma: basic and moncurve curves, per-channel parameters, inverses",
 "basicFwd raises the non-negative part of the input to gamma and basicRev to 1/gamma (gamma may be an int or a float); moncurveFwd is the offset power curve with its linear toe (all toe where gamma is 1, no toe where the offset is 0), and moncurveRev undoes it for every input including the toe and, where there is one, negative values. Parameters set without a channel apply to all three channels, parameters set for R, G or B to that channel only, later ones override earlier ones; a pixel of one or two channels is processed in those it has, and channels past the third pass through.",
 ["inputs", "configurations"], "all styles x (gamma, offset) alphabet x channel-assignment sequences x depths x inputs on both sides of the toe pivot",
 "The tests run five gammas in a chain on one pixel.",
 [C+"ExtensionGamma.py"], [("Gamma.process", C+"ExtensionGamma.py")], ["ProcessList.process"])

prop("C10", "Log: six styles, per-channel parameters, inverses",
 "log10, log2, antiLog10, antiLog2 compute those functions (the logs floor their argument at the smallest normal float), and logToLin / linToLog compute the Cineon-style transfer from gamma, reference white, reference black, highlight and shadow. Each inverse pair undoes each other where defined. Parameters set without a channel apply to all three channels, for R, G or B to that channel only, later ones override earlier ones; a pixel of one or two channels is processed in those it has, and channels past the third pass through.",
 ["inputs", "configurations"], "all styles x parameter alphabet x channel-assignment sequences x depths x inputs including zero and negatives",
 "The tests run six logs in a chain on one pixel.",
 [C+"ExtensionLog.py"], [("Log.process", C+"ExtensionLog.py")], ["ProcessList.process", "Log.process"])

prop("C11", "ExposureContrast: linear, video and log styles",
 "ExposureContrast with exposure e, contrast c and pivot p computes p*max(0, 2^e*x/p)^c in style linear, the same with 2^e/p and p raised to 1/1.83 in style video, and in style log (x + e*(0.6/2.046)*log10(2) - q)*c + q with q = (0.6/2.046)*log10(p/0.9) + 685/1023. It does so for every pixel of a call at every bit depth, channels past the third are each pixel's own, and a pixel of one or two channels is processed in those it has. Parameters that are not set mean exposure 0, contrast 1, pivot 1.",
 ["inputs", "configurations"], "all styles x parameter alphabet x depths x 1-3 pixels per call x 3/4 channels",
 "The tests use style linear on one pixel.",
 [C+"ExtensionExposureContrast.py"], [("ExposureContrast.process", C+"ExtensionExposureContrast.py")], ["ProcessList.process"])

prop("C12", "Writing a CLF and reading it back preserves the transform",
 "A ProcessList written to a file, plain or gzipped, and read back has the same attributes (name, id, inverseOf, version, namespace), descriptions, descriptors and info elements, the same nodes in the same order with the same attributes, dynamic parameters, descriptions, tables, index maps and parameters, and processes every pixel alike up to the precision of the stored text. Text survives markup characters and non-ASCII letters. Writing what was read and reading it again changes nothing further.",
 ["programs", "configurations"], "every node variant alone and all ordered pairs/triples of node types, all metadata subsets, plain and gzip, read and rewrite twice",
 "The tests write and read one list, plain and gzipped, and compare the result for one pixel.",
 [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"IndexMap.py", C+"Info.py", C+"Comment.py"],
 [("ProcessList.write / read", C+"ProcessList.py"), ("ProcessNode.write / read", C+"ProcessNode.py"), ("Array.write / read", C+"Array.py")],
 ["ProcessList.writeFile", "ProcessList.readFile", "the XML text of the file"])

prop("C13", "Encoded arrays store floats bit for bit",
 "With floatEncoding integer16bit, hex16bit, integer32bit, hex32bit, integer64bit or hex64bit, or the raw-halfs option, the file holds the decimal, respectively big-endian hexadecimal, bit pattern of each value at that width, and reading it back gives a float with that very bit pattern (any NaN for a NaN), in Matrix, LUT1D and LUT3D alike. With no encoding values are stored as decimals with nine places.",
 ["inputs", "configurations"], "all 65536 half patterns; for 32 and 64 bits every exponent x boundary mantissas x sign; all encodings x node types",
 "The tests store five round numbers per encoding and compare the processed pixel.",
 [C+"Array.py", C+"Common.py"], [("Array.write / read", C+"Array.py"), ("bit casts", C+"Common.py")], ["LUT1D.getLUTValues after readFile", "Array text in the file"])

prop("C14", "A bypassed node is skipped and only the bit depth is adapted",
 "With Autodesk features enabled, a node whose bypass attribute is true (set in code or in a file) does not act: the value is passed on, rescaled only if the depth the preceding node delivers differs from the depth the following node expects (at either end of the list the node's own depth stands in). This holds at every position, for several bypassed nodes in a row, in a group as in a list. bypass false or absent, or Autodesk features disabled, means the node acts.",
 ["programs", "configurations"], "all lists up to length 4 x bypass settings per node x depth chains x feature sets, in lists and in groups, built or read",
 "The tests bypass one CDL in the middle of one list.",
 [C+"ProcessList.py", C+"ExtensionGroup.py"], [("bypass branch of ProcessList.process", C+"ProcessList.py"), ("bypass branch of Group.process", C+"ExtensionGroup.py")], ["ProcessList.process"])

prop("C15", "Feature sets and strict reading gate extensions exactly",
 "Reading strictly raises the unsupported-extension error for exactly those extension nodes and dynamic parameters whose feature set (Autodesk: ExposureContrast, Gamma, Log, Reference, DynamicParameter; Duiker Research: Group) is disabled, and the unknown-node error for unknown elements, equally in plain and gzipped files and inside groups; reading non-strictly never raises for them: it skips unknown elements and disabled dynamic parameters and keeps the nodes. Gzip files and encoded arrays can be written, and gzip read, only with Duiker Research enabled, and Autodesk CDL keywords processed only with Autodesk enabled. The setting is global and takes effect on the next operation.",
 ["configurations", "histories"], "all feature sets x every element kind x strict/non-strict x plain/gzip x top level/in group, and all sequences of setting changes and operations up to the depth bound",
 "The tests run with all features on and never read strictly.",
 [C+"ProcessList.py", C+"ProcessNode.py", C+"ExtensionGroup.py", C+"Array.py", C+"ASCCDL.py", C+"Common.py", C+"Errors.py"],
 [("ProcessList.read / readFile / writeFile", C+"ProcessList.py"), ("setFeatureCompatibility", C+"Common.py")], ["ProcessList.readFile", "ProcessList.writeFile", "ProcessList.process"])

prop("C16", "A Group acts as its nodes in place",
 "Processing, writing and reading a list with nodes wrapped in Groups, at any position and nested, gives the same pixels as the list with the grouped nodes in place, for any stride. A Group keeps its nodes, their order and names, and its own descriptions, descriptors and info elements across writing and reading, and an empty Group does nothing.",
 ["programs", "inputs"], "all groupings (including nested) of all node sequences up to the bound x pixel layouts, before and after a file round trip",
 "The tests hold one two-node group.",
 [C+"ExtensionGroup.py", C+"ProcessList.py"], [("Group.process / write / readChild", C+"ExtensionGroup.py")], ["ProcessList.process", "Group.getProcesses"])

prop("C17", "A Reference acts as the file it names; self-contained writing inlines it",
 "A Reference to an existing CLF (by path, or base path plus path) processes pixels as that file's list does, before and after being written and read, also inside Groups and through chains of references; a Reference to a file that does not exist passes values through. Writing a list self-contained replaces every resolved Reference, wherever it is nested, by the nodes it refers to (bypassed, where the Reference is), leaving a file that processes alike without the referenced files; writing normally keeps the Reference elements, whichever way the list was written before.",
 ["programs", "histories"], "all reference topologies up to the bound (plain, grouped, chained, missing) x write modes in every order x pixel probes",
 "No test uses Reference.",
 [C+"ExtensionReference.py", C+"ExtensionGroup.py", C+"ProcessList.py"], [("Reference.write / process / setPaths", C+"ExtensionReference.py"), ("writeSelfContained", C+"ProcessList.py")], ["ProcessList.process", "ProcessList.writeFile"])

prop("C18", "SPI LUT files are read as the lookup they describe",
 "Reading an spi1d file gives a list that maps the file's input range onto a one- or three-component table with clamped linear interpolation, whatever the order of the header lines, before or after the table, and of blank lines; reading an spi3d file (blue varying fastest, any lattice size) gives its lattice lookup, trilinear for interpolation 'linear' and tetrahedral on request. Reading a file with an extension no reader supports yields nothing.",
 ["inputs", "configurations"], "all files over small sizes, components, ranges, header orders and value patterns; probes on and between all samples",
 "The tests for this package need files that are not there and do not pass.",
 [L+"LutSPI.py", L+"Registry.py"], [("readSPI1D / readSPI3D", L+"LutSPI.py"), ("Registry.read", L+"Registry.py")], ["Registry.read"])

prop("C19", "Cinespace LUT files are read as the lookup they describe",
 "Reading a csp file (1D or 3D, any lattice size, red varying fastest) gives a list that applies the per-channel prelut, a clamped piecewise-linear curve over each channel's own input range, and then the table with linear, respectively trilinear (tetrahedral on request), interpolation. It is exact where the prelut knots fall on the resampled prelut grid, and preluts that differ per channel in knots, number of points and output values are each honoured. Metadata and blank lines have no effect.",
 ["inputs", "configurations"], "all files over small sizes, prelut shapes per channel, value patterns and line layouts; probes on and between all samples",
 "The tests for this package do not pass here; none reads a csp.",
 [L+"LutCSP.py"], [("readCSP / generateCLFPrelut", L+"LutCSP.py")], ["Registry.read"])

prop("C20", "Sampling a CLF into a 1D or 3D LUT file stores the transform's values",
 "Writing a list as a 1D or 3D LUT (spi1d, spi3d, csp, ctl) stores, for every sample position of the requested resolution over the requested input range, the value the list gives there, per channel and in the file format's own order, to the precision of the text. The header states the resolution and, where the format can, the range, and where the format can be read back the result agrees with the list at every sample. A format or layout no writer supports writes no file.",
 ["inputs", "configurations"], "formats x layouts x resolutions x input ranges x transforms that tell channels and axes apart, every sample compared; all (extension, layout) pairs for dispatch",
 "The tests for this package do not pass here; none checks a sample.",
 [L+"Sampling.py", L+"LutFormat.py", L+"LutSPI.py", L+"LutCSP.py", L+"LutCTL.py", L+"Registry.py"],
 [("sample1D / sample3D", L+"Sampling.py"), ("writeSPI1D/3D, writeCSP1D/3D, writeCTL1D/3D", L), ("Registry.write", L+"Registry.py")], ["Registry.write", "the written file"])

prop("C21", "1D/3D/1D conversion: shaper, lattice in shaped space, inverse output shaper",
 "Writing a list as clf with the 1D/3D/1D layout gives a list that applies the input shaper (linear or log2 over its range, sampled at the requested resolution, clamped outside), a 3D lattice holding the transform's values in shaped space, and the output shaper's inverse (sampled likewise), and so, with linear shapers, agrees with the original at every lattice point; without a shaper that stage is absent. A csp written with an input shaper holds that shaper as prelut and the same lattice, and one written without holds the plain lattice over [0,1].",
 ["inputs", "configurations"], "input and output shaper kinds and ranges x resolutions x transforms, all lattice points and shaper samples",
 "The tests for this package do not pass here; none uses a shaper.",
 [L+"Sampling.py", L+"LutCLF.py", L+"LutCSP.py"], [("createShaper / sample1D3D1D", L+"Sampling.py"), ("writeCLF1D3D1D", L+"LutCLF.py"), ("writeCSP1D3D", L+"LutCSP.py")], ["Registry.write", "ProcessList.readFile"])

prop("C22", "Inverse reading of a 1D LUT undoes the LUT",
 "Reading an spi1d with a non-decreasing table inversely gives, by index map, by half-domain table and by resampling alike, a list that maps table output values back to the input values that produce them, over the file's declared input range, per channel: exactly at every knot and in between for the index-map form, at every half-float for the half-domain form, and at every resampling position for the resampled form. Flat stretches map to an input that gives that output, and inverses survive writing and reading.",
 ["inputs", "configurations"], "all non-decreasing tables over a value alphabet x components x ranges x the three methods; all knots and interior probes",
 "No test inverts a LUT.",
 [L+"Sampling.py", L+"LutSPI.py", C+"IndexMap.py"], [("generateLUT1DInverse*", L+"Sampling.py")], ["Registry.read(inverse=True)"])

prop("C23", "Image filtering applies the CLF to every pixel, however rows are scheduled",
 "Filtering an image writes an image of the same size and channel names in which every pixel is the list's result for that pixel: input converted from the image's depth to the list's, output converted to the requested depth (or the input's), integers rounded to the nearest code and clamped (NaN to 0). Single- and multi-threaded filtering agree for every completion order of the row tasks and every image size; a failing row task or an image that cannot be read yields no output image. Metadata is carried over with bits-per-sample set to the output depth, and compression settings are passed on.",
 ["schedules", "inputs", "fault_sequences"], "image sizes x channels x depths x output depths x thread counts x all completion orders and single failures of row tasks; every pixel compared",
 "No test filters an image (the image library is not installed).",
 [A+"filterImageWithCLF.py"], [("filterImageWithCLF, filterRow_*", A+"filterImageWithCLF.py"), ("readPixelArray / writePixelArray", A+"filterImageWithCLF.py")], ["pixels handed to the image writer"])

prop("C24", "OCIO transforms convert to the same colour operation",
 "Converting OCIO colour spaces, from the library or the command line, writes a list that applies the source-to-reference transforms and then the reference-to-destination transforms in order: groups (nested too) as their members in order, or in an inverted group the inverse of each in reverse order, matrices with their offsets, logs and antilogs of base 2 and 10, and LUT files (1D spi ones in the direction, and inverted by the method, asked for). Transforms that are not supported contribute no node, no file is written if there are none, and nodes are named and described by the colour space they come from.",
 ["programs", "inputs"], "all transform trees up to the bound over matrix forms (3x3-in-4x4, with offset, full 4x4), logs and files, both directions, 1-2 spaces on either side",
 "No test converts a config (OpenColorIO is not installed).",
 [A+"convertOCIOtoCLF.py"], [("convertTransformsToProcessNodes, convertMatrixToProcessNode, convertLogToProcessNode", A+"convertOCIOtoCLF.py")], ["the written CLF"])

prop("C25", "The command-line converters do what their options say",
 "convertLUTtoCLF writes the CLF that reading the named LUT gives, forward or inverse with the method chosen by its flags. convertCLFtoLUT writes the LUT of the layout, resolution, input range and shapers its options name, with the documented defaults for options that are absent, for every combination of them. Without both file names nothing is written.",
 ["configurations"], "all subsets of options with small values x layouts x formats",
 "No test runs the tools.",
 [A+"convertCLFtoLUT.py", A+"convertLUTtoCLF.py"], [("main", A+"convertCLFtoLUT.py"), ("main", A+"convertLUTtoCLF.py")], ["files the tools write"])

prop("C26", "Printed information shows the true values and changes nothing",
 "Printing a list (clfinfo or the library call) shows each attribute, value element, dynamic parameter, description, table shape and size, and node parameter with its actual value, nodes in list order, nested nodes included. It never fails on a valid list, short or long tables and index maps included (a long table may be abbreviated to its first and last rows, at least three of each), and leaves the list, its file form and its results unchanged.",
 ["configurations", "inputs"], "every node variant, table sizes around the abbreviation limits, metadata subsets, groups and references",
 "The tests print nothing that is compared.",
 [C+"ProcessNode.py", C+"ProcessList.py", C+"Array.py", C+"IndexMap.py", "python/bin/clfinfo"], [("printInfo / printInfoChild", C+"*.py")], ["standard output"])

prop("C27", "Damaged files are rejected and refused writes leave the old file",
 "Reading a CLF cut off at any byte, plain or gzipped, or a gzipped one with any byte changed, either fails with an error or gives the complete original transform, never a partial or different one. A write that is refused (gzip or an encoding without the feature) leaves an existing file as it was, and the same list can be written afterwards. A write interrupted at any byte leaves a file that reading rejects or that is complete.",
 ["crash_points", "fault_sequences"], "every prefix length of several files, every byte position x bit flips of gzipped ones, every interruption point of a write",
 "The tests never read a damaged file or refuse a write.",
 [C+"ProcessList.py"], [("ProcessList.readFile / writeFile", C+"ProcessList.py")], ["ProcessList.readFile", "file bytes"])

prop("C28", "Objects do not share state; results do not depend on history",
 "Setting values, adding elements, processing, printing, writing or reading one node or list changes no other node or list and none of the lists and arrays passed in by the caller, whether created before or after, and returned results are the caller's own to write to. An object's results depend only on what was set on it, not on what it or others processed, wrote or printed before, nor on how it was built: setting a table, matrix or index map again is as setting it once, and one node placed in two lists behaves the same in both.",
 ["histories"], "all operation sequences up to the depth bound over two objects of each kind and shared argument lists",
 "The tests build each object once and use it once.",
 [C+"Array.py", C+"IndexMap.py", C+"LUT3D.py", C+"LUT1D.py", C+"Matrix.py", C+"ProcessList.py", C+"ProcessNode.py"], [("constructors and setters", C+"*.py")], ["ProcessList.process", "ProcessList.write"])

prop("C29", "List and node accessors behave as ordered list and dictionary",
 "A ProcessList keeps added nodes in order: length, iteration, indexing and getProcesses agree, and lookup by name returns the first node of that name or nothing; a Group's do too. Attributes, names, ids, namespace, versions and value elements return the last value set or nothing; the list's in and out depths are those of its first and last node, setting them sets those, and on an empty list they are absent and setting has no effect.",
 ["histories"], "all operation sequences up to the depth bound against a list-and-dictionary model",
 "The tests set each attribute once and compare none.",
 [C+"ProcessList.py", C+"ProcessNode.py", C+"ExtensionGroup.py"], [("accessors", C+"ProcessList.py"), ("accessors", C+"ProcessNode.py")], ["the accessors"])

prop("C30", "Sampled-function LUTs hold the function at every sample",
 "The LUT built from a function holds that function's values at i/(n-1) for every table index of a 1D LUT, at every one of the 65536 half-floats of a half-domain LUT, and at every lattice point of a 3D LUT of any size with each axis passed as its own argument, in every channel. It carries the id, name, depths and options asked for, evaluates to the function at every sample, and leaves the caller's arguments alone.",
 ["inputs", "configurations"], "all small sizes incl. non-cubic x channels x functions that tell axes and samples apart; all half codes",
 "The tests build one of each and check one processed pixel.",
 [C+"LUT1D.py", C+"LUT3D.py"], [("simpleSampledLUT, simpleSampledLUTHalfDomain", C+"LUT1D.py"), ("simple3DLUT", C+"LUT3D.py")], ["getLUTValues", "process"])

prop("C31", "CLF and CTF documents read alike however they are spelled",
 "A document is read as the same transform whether or not it has a namespace or prefixes, with ASC_CDL or ASC-CDL spellings, attributes in any order, comments, any layout of white space in arrays and parameters, decimal or exponent numbers, booleans in either case, and descriptions before, between or after nodes. Attributes it does not give take their documented defaults, node children apply in document order, and unknown elements and attributes are ignored without disturbing the rest.",
 ["inputs", "programs"], "all combinations of spelling variations over documents with every node type",
 "The tests only read what the library itself wrote.",
 [C+"ProcessList.py", C+"ProcessNode.py", C+"Array.py", C+"Range.py", C+"ASCCDL.py"], [("read / readChild / getElementType", C+"*.py")], ["ProcessList.readFile", "ProcessList.process"])

prop("C32", "An index map gives the points set last, cached or not",
 "An index map is the clamped piecewise-linear function through its points, infinities and NaN passing through. With caching asked for, at construction or later, every half-float gives what it gives uncached and values between two neighbouring halfs their linear interpolation, and points set or read later take effect at once in either mode. Its size and points read back, from the object and from its written form, are those set.",
 ["histories", "inputs"], "all half codes on maps of each shape; all sequences of setting, reading, switching and processing up to the depth bound",
 "The tests only use index maps inside a LUT and never cached.",
 [C+"IndexMap.py"], [("process, _processRaw, _createCachedProcess, setValues, read, write", C+"IndexMap.py")], ["IndexMap.process", "IndexMap.write"])

prop("C33", "Every float goes through and no pixel touches another",
 "A list accepts any single-precision values, NaN, infinities, subnormals and the largest numbers among them, from any container, and delivers one value for each without failing. What becomes of a pixel depends on that pixel alone, whatever its neighbours in the call hold; nodes that work on separate channels give each channel from its own value alone, and colour nodes leave channels past the third as they are. Clamping ranges, tables and clamped CDLs keep every finite number within their bounds.",
 ["inputs", "configurations"], "all triples over an alphabet of special and ordinary numbers x every node kind and variant; all ordered pairs of nodes",
 "The tests process ordinary pixels only.",
 [C+"ProcessList.py", C+"Range.py", C+"LUT1D.py", C+"LUT3D.py", C+"ASCCDL.py", C+"Matrix.py"], [("ProcessList.process", C+"ProcessList.py"), ("process of every node", C+"*.py")], ["ProcessList.process"])

prop("C34", "Sampling functions and format writers take any shape",
 "The sampling functions fill a table of any length and a lattice of any size per axis with the list's values at its positions, and a shaper and its inverse undo each other. The writer of each format stores a table of any number of entries and channels, in as few components as asked for, and a lattice of any size per axis, entry for entry in the format's own order with its sizes and range. Formats that have a reader read back as the lookup that was written.",
 ["inputs", "configurations"], "all small sizes per axis x formats x shapers x ranges; all entries, channels and components",
 "The tests for this package do not pass here; the tools only write cubes of three channels.",
 [L+"Sampling.py", L+"LutSPI.py", L+"LutCSP.py", L+"LutCTL.py", L+"LutCLF.py"], [("sample1D, sample3D, sample1D3D1D, createShaper", L+"Sampling.py"), ("writeSPI*, writeCSP*, writeCTL*, writeCLF*", L+"Lut*.py")], ["Sampling.sample*", "LutFormat*.write*"])

prop("C35", "A LUT goes to a format that takes its extension and layout",
 "Reading and writing a LUT go to a registered format that has the capability asked for with the file's extension, whatever its letter case, and to no other; if one fails, the next that qualifies is tried, the first success ends it, and if none is left a message says so and reading returns None. The format gets the arguments of the call, or the documented defaults, and the nodes it returns come in a named list, or alone on request. A format says of itself what it lists, and the tools' help names the formats that can be read, or written.",
 ["configurations", "inputs"], "all pairs of formats over lists of extensions, capabilities and outcomes x operations x paths; all subsets of arguments",
 "The tests for this package do not pass here; none registers a format.",
 [L+"Registry.py", L+"LutFormat.py", L+"__init__.py"], [("Registry.read, write, registerLutFormat", L+"Registry.py"), ("LutFormat capabilities", L+"LutFormat.py")], ["Registry.read", "Registry.write", "LutFormat.isCapable"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
