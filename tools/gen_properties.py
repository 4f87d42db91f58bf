#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept here so that the statements are edited in one place)."""
import json, os
M = "ColorMagic/manipulation/"; S = "ColorMagic/spaces/"; U = "ColorMagic/utils/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=[observe] if isinstance(observe, str) else observe)))

p("C01", "Every API call is free of memory errors and undefined behaviour",
  "Whatever colours, spaces, strings, matrices, weights or counts a caller passes (including NaN, infinities, out-of-range values, negative indices and malformed hex text), every public operation of the library either returns or throws a standard exception. It never reads or writes outside an object, never uses freed or uninitialised memory, never executes undefined arithmetic or conversions and never crashes.",
  ["inputs", "histories"], "all argument values of all public constructors, accessors, conversions, calculations, blends, adaptations and matrix operations, and sequences of such calls",
  "The tests pass a few well-formed values to each call in an uninstrumented build, where an out-of-bounds read or an uninitialised float goes unnoticed.",
  [M+"color_converter.cpp", M+"color_calculation.cpp", M+"color_combinations.cpp", M+"chromatic_adaptation.cpp", S+"color_base.h", S+"rgb_truecolor.cpp", U+"matrix.h"],
  [("bounds checks on component and matrix access", S+"color_base.h get_component/set_component; "+U+"matrix.h get_value/set_value"), ("hex text parsing", S+"rgb_truecolor.cpp"), ("count and argument validation", M+"color_combinations.cpp")],
  "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind reports, escaped exceptions and process status of a hostile workload over the whole API")

p("C02", "Every colour the library produces stays inside its component ranges",
  "Every component of every colour that a constructor, setter, conversion, calculation, blend, combination, adjustment or adaptation hands to the caller is a number inside the documented range of its colour space (for instance 0..255, 0..1, hue 0..359, L 0..100, a/b -128..128), and its alpha lies in 0..255 for true colours and 0..1 for all others. This holds even when the inputs or intermediate results are far out of range, infinite or not a number.",
  ["inputs", "histories"], "all input colours, spaces and parameters, all operations, and chains of operations",
  "Tests look at chosen in-range colours; leaving the range needs saturated, out-of-gamut, transparent or non-finite inputs.",
  [S+"color_base.h", S+"rgb_deepcolor.cpp", S+"hsv.cpp", S+"lab.cpp", S+"cieluv.cpp", S+"lch_ab.cpp", M+"porter_duff.cpp", M+"color_blend.cpp"],
  [("clamping on construction and on set", S+"color_base.h clamp; the constructors and setters in "+S+"*.cpp")],
  "component vector and alpha of every object returned by the public API")

p("C03", "Operations never modify their input colours or spaces",
  "Converting, comparing, measuring, blending, combining, averaging, adapting or adjusting colours leaves every input colour, RGB space definition, white point and gamma curve exactly as it was, unless the operation is one documented to work in place on an argument passed by reference. Repeating an operation on the same inputs therefore gives the same answer.",
  ["inputs", "histories"], "all operations, all inputs and all sequences of operations that share input objects",
  "Tests check the result of one call and do not re-inspect the inputs or repeat the call.",
  [M+"color_converter.cpp", M+"color_adjustments.cpp", M+"color_combinations.cpp", M+"chromatic_adaptation.cpp", M+"color_blend.cpp", M+"porter_duff.cpp", M+"color_calculation.cpp"],
  [("working copies instead of in-place gamma / premultiplication", M+"color_converter.cpp rgb_deep_to_xyz; "+M+"porter_duff.cpp")],
  "bit snapshots of all input objects before and after each call, and repeated-call comparison")

p("C04", "Conversion works for every pair of colour spaces and keeps alpha and space",
  "For each of the 15 by 15 pairs of colour types the generic conversion returns a colour of exactly the requested type, carrying the same RGB space definition and the same opacity (rescaled between 0..1 and 0..255, and rounded to a whole step only when going to an 8-bit type). Asking for the type a colour already has gives an equal colour.",
  ["inputs", "configurations"], "all source/target type pairs, all component and alpha values, all RGB spaces",
  "Tests convert a handful of opaque named colours in sRGB and never look at the space pointer or at fractional alpha.",
  [M+"color_converter.cpp", M+"color_converter.h"],
  [("generic dispatch by colour type", M+"color_converter.cpp convertTo, to_*"), ("alpha transfer in each typed conversion", M+"color_converter.cpp")],
  "type, alpha and RGB space of each conversion result")

p("C05", "RGB, grey, CMYK, HSV, HSL, HSI and HCY conversions follow their formulas",
  "Conversions among true/deep RGB, true/deep grey, CMYK, HSV, HSL, HSI and HCY compute the standard formulas (8-bit scaling with rounding, grey as the channel mean, undercolour-free CMYK, hexagonal hue, Rec.709 luma for HCY) for every colour, including black, white, greys, hue sector borders and fully saturated colours. Achromatic colours get hue 0 and saturation or chroma 0, and black in CMYK is K=1 with no ink.",
  ["inputs"], "all component values of the nine RGB-family types and every pair of them",
  "Tests sample about ten named colours; sector borders, near-greys and low lightness need dense and boundary sampling.",
  [M+"color_converter.cpp"],
  [("hue sector computation", M+"color_converter.cpp hue_from_rgb_helper"), ("sector reconstruction", M+"color_converter.cpp hsv/hsi/hsl/hcy_to_rgb_deep")],
  "components of conversion results against an independent double-precision model")

p("C06", "XYZ, xyY, Luv, Lab and LCH conversions follow CIE definitions",
  "Conversions between RGB and XYZ apply the RGB space's gamma curve and its primaries/white matrix, and conversions between XYZ, xyY, CIE Luv, CIE Lab and their cylindrical LCH forms compute the CIE definitions relative to the white point of the colour's RGB space, for every colour and every RGB space. Black maps to black and the space's white maps to L=100 with no chroma.",
  ["inputs", "configurations"], "all component values of the CIE types, all RGB space presets, custom spaces and white points",
  "Tests cover a few sRGB colours; the low-lightness branches, other white points and hue quadrants need generated inputs.",
  [M+"color_converter.cpp", S+"rgb_color_space_definition.h", S+"gamma.h"],
  [("matrix times linearised components", M+"color_converter.cpp rgb_deep_to_xyz, xyz_to_rgb_deep"), ("Lab/Luv piecewise functions", M+"color_converter.cpp xyz_to_lab_helper, lab_to_xyz_helper, xyz_to_cieluv, cieluv_to_xyz")],
  "components of conversion results against an independent double-precision CIE model")

p("C07", "Converting a colour away and back returns the same colour",
  "For every RGB space and every colour inside its gamut, converting to any lossless colour space and back returns the original colour up to rounding, and going through any intermediate lossless space gives the same result as converting directly. The generic conversion and the direct conversion for the same pair agree exactly.",
  ["inputs", "configurations", "histories"], "all in-gamut colours, all RGB spaces, all chains of conversions through spaces whose range is not exceeded",
  "Tests compare one step of one colour at a time with loose tolerances; chains are not tested.",
  [M+"color_converter.cpp"],
  [("pairs of inverse conversions", M+"color_converter.cpp"), ("mutually inverse RGB/XYZ matrices and gamma curves", S+"rgb_color_space_definition.h, "+S+"gamma.h")],
  "colour after a chain of conversions compared with the colour before it")

p("C08", "Hex codes and predefined colours decode to the right channels",
  "An RGB colour built from hex text of six digits (RRGGBB, opaque) or eight digits (AARRGGBB), with or without a leading #, in either letter case, or from a packed 0xAARRGGBB number has exactly the channel values written there, and any other text is rejected with an invalid-argument exception. A predefined colour yields the colour of its hex code in every colour space it can be asked for.",
  ["inputs"], "all strings and integers, all predefined colours and all target spaces",
  "Tests parse a few well-formed codes; malformed text, single channel bits and most of the named colours are never touched.",
  [S+"rgb_truecolor.cpp", U+"colors.h"],
  [("hex text and integer decoding", S+"rgb_truecolor.cpp"), ("predefined colour table and accessors", U+"colors.h")],
  "channels of the constructed colour, and exceptions")

p("C09", "Gamma curves evaluate the right part and the two directions are inverse",
  "A gamma curve applies to each value the part with the smallest upper border that is not below the value, whatever the order in which parts were added, replaced or removed, skips empty parts, and returns the value unchanged if no part covers it. Each preset curve computes its published transfer function, is monotonic on 0..1, and its correction and inverse correction undo each other.",
  ["inputs", "histories"], "all values in 0..1 and beyond, all sequences of adding, setting and removing parts, all presets",
  "Tests evaluate presets at a few points and build curves in sorted order.",
  [S+"gamma.h", S+"color_base.h"],
  [("sorted part lookup", S+"gamma.h gamma_correction, inverse_gamma_correction, sort_gamma_parts"), ("preset curves", S+"gamma.h gamma_presets")],
  "return values of the curve evaluation and of gamma correction on colours")

p("C10", "RGB space matrices are derived from primaries and white, and stay in step",
  "For every RGB space, preset or custom, the RGB-to-XYZ matrix maps (1,1,1) to the white point and each primary to its chromaticity, the second matrix is its inverse, and presets have the published primaries, white point and gamma. Replacing the white point recomputes both matrices and nothing else, and a copy of a space behaves like the original while later changes to one do not affect the other.",
  ["inputs", "configurations", "histories"], "all presets, all valid primaries and white points, and sequences of copying and changing spaces",
  "Tests compare the matrices of a few presets with loose tolerances and rarely change a space after construction.",
  [S+"rgb_color_space_definition.h", S+"white_point.h"],
  [("matrix derivation", S+"rgb_color_space_definition.h calculate_transformation_matrix"), ("white point replacement", S+"rgb_color_space_definition.h set_white_point")],
  "matrices, primaries, white point and gamma of a space after each step")

p("C11", "White points are consistent between chromaticity and tristimulus values",
  "A white point built from chromaticity has the tristimulus with Y=1 of that chromaticity, one built from tristimulus has the matching chromaticity, the three chromaticity coordinates add up to 1, and copying and comparing work on the values. Every preset illuminant (2 and 10 degree) has the published chromaticity and a tristimulus that agrees with it.",
  ["inputs", "configurations"], "all 40 presets and all chromaticities and tristimulus values",
  "Tests check a few constructors; most presets are never looked at.",
  [S+"white_point.h"],
  [("conversion between the two descriptions", S+"white_point.h"), ("preset table", S+"white_point.h white_point_presets")],
  "chromaticity and tristimulus getters")

p("C12", "Matrix operations obey linear algebra for every shape",
  "Sum, difference, scalar and matrix product, matrix-vector product, transpose, determinant, adjoint, inverse, identity, fill, insert, resize and equality of matrices of every shape, square or not, give the mathematically defined result and shape. Operands whose shapes do not fit, and element indices outside the matrix, are rejected with a standard exception and leave the matrix unchanged.",
  ["inputs", "histories"], "all shapes, all values, and sequences of operations on the same matrix",
  "Tests use one or two square matrices per operation.",
  [U+"matrix.h"],
  [("index computation and shape checks", U+"matrix.h")],
  "elements, shape and exceptions of each operation against a reference implementation")

p("C13", "Porter-Duff operations composite colour and alpha by their definition",
  "Each of the twelve Porter-Duff operations gives the alpha and colour defined by its coverage regions (source only, destination only, both) for every pair of colours and opacities, in the colour type of the source. The general operation composes the regions chosen by its flags with a caller-supplied function in the same way, returns a fully transparent colour when nothing is covered, and rejects inputs without a common RGB space.",
  ["inputs", "configurations"], "all colours, alphas, colour types, region flags and blend functions",
  "Tests use one pair of colours and a few alphas per operation.",
  [M+"porter_duff.cpp", M+"porter_duff.h"],
  [("region areas and premultiplied sum", M+"porter_duff.cpp general_porter_duff")],
  "alpha and components of the result against a double-precision compositor")

p("C14", "Component-wise blend modes compute their blend function under compositing",
  "Every separable blend mode (multiply, screen, overlay, darken, lighten, dodges, burns, the light modes, difference, exclusion, subtract, divide, plus modes, hard mix, normal, custom) combines each channel with its blend function where both colours overlap and composites source and destination outside the overlap according to the region flags, for every colour, alpha and colour type. Dissolve picks exactly the source or the destination channels in the overlap.",
  ["inputs", "configurations"], "all colours, alphas, types and region flags for every mode, including the 0, 0.5 and 1 borders of each function",
  "Tests check one or two opaque pairs per mode; the branch borders and partial opacity are not covered.",
  [M+"color_blend.cpp", M+"porter_duff.cpp"],
  [("blend functions", M+"color_blend.cpp"), ("compositing of the overlap", M+"porter_duff.cpp general_porter_duff")],
  "result components and alpha against a double-precision blend model")

p("C15", "Hue, saturation, colour and luminosity blends mix the right HCY components",
  "The hue, saturation, colour and luminosity blend modes take hue, chroma and luma from the source or destination as their name says, in HCY space, and return the result in the source's colour type, for all colours. With translucent inputs or disabled regions they composite like the other blend modes, and they reject inputs without a common RGB space.",
  ["inputs", "configurations"], "all colour pairs, alphas, types and region flags for the four modes",
  "Tests use a single opaque pair per mode.",
  [M+"color_blend.cpp"],
  [("component selection in HCY", M+"color_blend.cpp hue, saturation, color, luminosity")],
  "result components and alpha against a double-precision model")

p("C16", "Saturation and lightness adjustments change only what they promise",
  "Saturating or lightening a colour by a fraction scales its HSL saturation or lightness (HSL variants) or moves its RGB channels away from the luma or scales them (RGB variants) by exactly that fraction, clamped to the valid range, keeping hue, opacity, space and colour type. A fraction of zero leaves every displayable colour as it is, and the in-place variants give the same result as the copying ones.",
  ["inputs"], "all colours, colour types and adjustment fractions",
  "Tests use a few colours and one or two fractions.",
  [M+"color_adjustments.cpp"],
  [("luma-relative scaling and HSL scaling", M+"color_adjustments.cpp")],
  "adjusted colour against a double-precision model")

p("C17", "Colour harmonies are exact hue rotations of the base colour",
  "Complementary, triad, tetrad, quintet, n-fold, analogous and split-complementary combinations contain the right number of colours in the documented order, each with the base colour's HSL saturation, HSL lightness, opacity, type and space and with the HSL hue rotated by the documented angle, for every base colour and parameter. Parameters outside the documented range are rejected.",
  ["inputs", "configurations"], "all base colours and types, all counts and distances",
  "Tests take one or two base colours per harmony.",
  [M+"color_combinations.cpp"],
  [("hue rotation in HSL", M+"color_combinations.cpp color_combination, analogous, split")],
  "hue, saturation, lightness, alpha and order of the returned list")

p("C18", "Monochromatic series step the chosen component and validate arguments",
  "A monochromatic series of n colours starts at the base colour and lowers the chosen HSL component (saturation, lightness or both) by the requested fraction at each step, leaving hue, opacity, type and space alone. Fractions outside 0..1, counts that are not positive and unknown modes for series of more than one colour are rejected with an invalid-argument exception.",
  ["inputs"], "all base colours, counts, fractions and modes",
  "Tests check one base colour and one step size.",
  [M+"color_combinations.cpp"],
  [("repeated scaling of components", M+"color_combinations.cpp monochromatic")],
  "the returned list, and exceptions")

p("C19", "Adding, mixing and subtracting colours follow the per-space rules",
  "Adding, mixing and subtracting two colours combines them by the rule of the first colour's space (root of weighted squares for RGB, weighted sum for grey, CMYK, XYZ, xyY and Luv, polar vectors for HSV and the hue spaces, XYZ for Lab and LCH), clamps to the valid range, includes the alpha only when asked and keeps the first colour's alpha otherwise. Mixing with weight w is adding with weights w and 1-w, the generic form equals the typed form for every type, and weights outside 0..1 are rejected.",
  ["inputs", "configurations"], "all colour pairs, types, weights in and outside 0..1, with and without alpha",
  "Tests use few colour pairs and weights, and mostly the typed calls.",
  [M+"color_calculation.cpp"],
  [("per-space sums and generic dispatch", M+"color_calculation.cpp add, mix, subtract")],
  "result components, alpha, type and exceptions against a double-precision model")

p("C20", "Averages are component means of any number of colours",
  "The average of a list of colours of one type has, in every component, the arithmetic mean of the components, has the mean alpha if alpha is included and the first colour's alpha otherwise, and keeps the first colour's space; it does not depend on the order of the list apart from that. An empty list is rejected.",
  ["inputs"], "all lists of all lengths for every colour type, with and without alpha",
  "Tests average two colours per type and never include alpha for most types.",
  [M+"color_calculation.cpp"],
  [("component sums", M+"color_calculation.cpp average_*")],
  "components and alpha of the average against a reference mean")

p("C21", "Colour distances are finite, non-negative, symmetric and zero on equals",
  "Every distance function returns a finite non-negative number for every pair of colours of any types, returns zero for colours with equal values and a positive number for colours that clearly differ. Euclidean, weighted Euclidean and CIE76 are symmetric, Euclidean and CIE76 satisfy the triangle inequality, and no distance depends on the colour type in which a colour is expressed.",
  ["inputs"], "all pairs and triples of colours in all types",
  "Tests measure a few pairs; degenerate pairs (equal hue, neutral, nearly equal) and triples are not sampled.",
  [M+"color_distance.cpp"],
  [("difference formulas", M+"color_distance.cpp")],
  "returned distances of pairs, swapped pairs and triples")

p("C22", "Each distance equals its published formula for all parameters",
  "Squared and plain Euclidean distance (in RGB or Luv as requested), weighted Euclidean, CIE76, CIE94, CIEDE2000 and CMC l:c return the value of their published formulas for every pair of colours and every choice of weighting parameters.",
  ["inputs", "configurations"], "all pairs of colours and all parameter choices",
  "Tests pin two pairs of colours per formula.",
  [M+"color_distance.cpp"],
  [("delta E formulas", M+"color_distance.cpp")],
  "returned distances against double-precision reference formulas")

p("C23", "Chromatic adaptation maps white to white and applies its transform",
  "Every adaptation method (von Kries, Bradford, XYZ scaling, Sharp, CMCCAT97, CMCCAT2000, CAT02, full and simplified) computes its published cone-response transform from the source to the target white point for every colour; the simplified and fully adapted forms map the source white to the target white and adapting there and back returns the colour. The result has the input's type and alpha, carries an RGB space with the target white and the original primaries and gamma, and does not alter the input's space; adapting to the same white returns the colour itself.",
  ["inputs", "configurations"], "all colours, types, source and target white points and viewing parameters",
  "Tests adapt one XYZ colour between two white points.",
  [M+"chromatic_adaptation.cpp", M+"chromatic_adaptation.h"],
  [("cone response scaling", M+"chromatic_adaptation.cpp do_adaption and the full variants")],
  "adapted colour and its space against a double-precision model")

p("C24", "Colour objects have sound value semantics",
  "Constructing, copying, assigning and comparing colours and setting or reading components, alpha, RGB space and gamma correction behave like values: a copy (also one made from a generic reference to a colour of the same type; a reference to another type is rejected) equals its source in type, components, alpha and space and is independent of it, assignment takes over the components, equality means same type and components, setters clamp, change only what they name, and reject bad indices. Premultiplying and un-premultiplying multiply and divide by alpha and undo each other.",
  ["inputs", "histories"], "all colour types, values and sequences of copies, assignments and updates",
  "Tests construct each type once and read the values back.",
  [S+"color_base.h", S+"rgb_truecolor.cpp", S+"rgb_deepcolor.cpp", S+"grey_truecolor.cpp", S+"cieluv.cpp", S+"hsv.cpp"],
  [("copy and base constructors, assignment, setters", S+"*.cpp"), ("component storage, equality, premultiplication", S+"color_base.h")],
  "object state after every step of random operation histories, against a shadow model")

p("C25", "Independent threads can use the library at the same time",
  "Threads that each work on their own results may share input colours, RGB spaces, white points, gamma curves and matrices and call any non-mutating operation concurrently: there is no data race and each call returns exactly what it returns when run alone. Repeating any deterministic operation gives bit-identical results regardless of what else ran before it.",
  ["schedules", "histories"], "all interleavings of non-mutating operations on shared inputs",
  "The tests are single threaded.",
  [M+"color_converter.cpp", M+"chromatic_adaptation.cpp", M+"color_blend.cpp", S+"gamma.h", S+"rgb_color_space_definition.h", U+"matrix.h"],
  [("absence of hidden shared mutable state", M+"*.cpp statics; "+U+"matrix.h operators")],
  "ThreadSanitizer reports, and results of concurrent calls compared with sequential ones")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
    print(len(P), "properties")
