#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

NOT = "The stable tests never run this code with more than one hand-picked input (most of them only import or instantiate classes); "

p("B01", "Beam is energy-sorted, normalised, and keeps each ray's data together",
  "After any beam description is set, the rays are in ascending energy order, their weights sum to 1 with the proportions given, and every ray keeps its own weight, characteristic flag and divergency. Omitted weights, flags and divergencies mean equal weight, flag 1 and divergency 0, a length-one list applies to every ray, and the vector and array interfaces agree. A new description replaces the previous one completely, an empty one leaving no ray.",
  ["inputs", "histories"], "all energies, weights with positive sum, flags, divergencies, list lengths and any earlier beam",
  NOT + "pairing through the sort and normalisation depend on every relative order of the energies.",
  ["fisx_beam.cpp", "fisx_beam.h"], [("setBeam/normalizeBeam", "fisx_beam.cpp"), ("Ray ordering", "fisx_beam.h")],
  ["Beam::getBeam", "Beam::getBeamAsDoubleVectors"])

p("B02", "Material composition is normalised to unit mass and bad input is rejected",
  "A material's stored composition sums to 1 and keeps the proportions of the positive amounts given, whichever interface set it. A non-positive amount, or different numbers of names and amounts, is refused and leaves the previous composition untouched; an empty name or a non-positive density or thickness is refused by initialisation. A material that already has a name cannot be renamed.",
  ["inputs", "histories"], "all amounts, densities, thicknesses and names, after any previous composition",
  NOT + "normalisation and rejection must hold for every amount vector, including zeros and negatives.",
  ["fisx_material.cpp", "fisx_material.h"], [("setComposition", "fisx_material.cpp"), ("initialize/setName", "fisx_material.cpp")],
  ["Material::getComposition", "exceptions"])

p("B03", "Layer transmission follows the attenuation law",
  "The fraction of photons a layer transmits is (1 - f) + f*exp(-rho*t*mu/|sin(angle)|) with f its covered fraction and mu the total mass attenuation coefficient of its material, so it stays within [0, 1] for 0 <= f <= 1 and does not depend on the sign of the angle. The single-energy and the energy-list interfaces agree. A layer whose mass thickness along the path is not positive is refused instead of giving a number, and the density and thickness setters refuse non-positive values. A layer that has no density or thickness of its own takes its material's.",
  ["inputs"], "all densities, thicknesses, covered fractions, angles, energies and coefficients",
  NOT + "no stable test computes a transmission through a layer.",
  ["fisx_layer.cpp", "fisx_layer.h"], [("Layer::getTransmission", "fisx_layer.cpp"), ("setters", "fisx_layer.cpp")],
  ["Layer::getTransmission"])

p("B04", "Detector geometry is consistent and validated",
  "A detector's active area is that of a disc of its diameter: setting an area and reading it back returns it, and the diameter set is returned as is. Negative areas and diameters and non-positive distances are refused and leave the geometry unchanged.",
  ["inputs", "histories"], "all areas, diameters and distances, in any order of calls",
  NOT + "the detector tests check instantiation only.",
  ["fisx_detector.cpp", "fisx_detector.h"], [("setActiveArea/getActiveArea/setDiameter/setDistance", "fisx_detector.cpp")],
  ["Detector::getActiveArea", "Detector::getDiameter", "Detector::getDistance"])

p("B05", "Transmission tables interpolate linearly between their points",
  "A transmission table returns the given transmission at each of its energies, the straight line between the two neighbouring points in between, and the first or last value outside its range; a table never set, or set empty, transmits everything. A repeated energy describes a step: the first value holds at that energy and the second one just above it. The list and single-value queries, and the map and list setters, agree.",
  ["inputs"], "all ascending energy lists, transmissions and query energies",
  "The stable tests compare two small tables at a few energies; nothing covers arbitrary positions, duplicates or boundaries.",
  ["fisx_transmissiontable.cpp", "fisx_transmissiontable.h"], [("getTransmission", "fisx_transmissiontable.cpp"), ("setTransmissionTable", "fisx_transmissiontable.cpp")],
  ["TransmissionTable::getTransmission", "TransmissionTable::getTransmissionTable"])

p("B06", "A refused transmission table leaves the previous one in force",
  "A table with a negative energy, a negative transmission, energies that decrease, or lists of different lengths is refused, and so is giving a new name or comment to a table that already has one. After a refusal the table, its name and its comment are exactly those from before.",
  ["inputs", "histories"], "all invalid tables after any valid one",
  "The stable tests never offer an invalid table.",
  ["fisx_transmissiontable.cpp"], [("input checks in setTransmissionTable", "fisx_transmissiontable.cpp")],
  ["TransmissionTable::getTransmissionTable", "exceptions"])

p("M01", "Exponential integrals satisfy their defining relations",
  "The exponential integral E1 is finite and positive for every positive argument, stays within the classical bounds exp(-x)/(x+1) < E1(x) <= exp(-x)/x up to the documented accuracy, and the function D(x) = exp(x)*E1(x) agrees with it. Higher orders obey n*E(n+1)(x) = exp(-x) - x*En(x), and invalid orders or arguments are refused.",
  ["inputs"], "all arguments x > 0 and orders n >= 1",
  NOT + "there is no stable test of the mathematical functions; approximation ranges meet at exact argument values.",
  ["fisx_math.cpp", "fisx_math.h"], [("E1/En/deBoerD/AS_5_1_53/AS_5_1_56/_deBoerD", "fisx_math.cpp")],
  ["Math::E1", "Math::En", "Math::deBoerD"])

p("M02", "Secondary-fluorescence integrals are built from their parts",
  "The layer integrals used for secondary fluorescence keep their defining relations: the interlayer integral is the four-term alternating sum of the corner integrals at the top and bottom of both layers, and results that are not finite are reported as errors rather than returned. Arguments outside the documented domain are refused.",
  ["inputs"], "all attenuation coefficients, angles, densities and thicknesses in the documented domain",
  NOT + "there is no stable test of these integrals.",
  ["fisx_math.cpp"], [("deBoerL0/deBoerX/deBoerV/deBoerY/deBoerW", "fisx_math.cpp")],
  ["Math::deBoerX", "Math::deBoerV", "Math::deBoerL0"])

p("M03", "Number classification and detector-response functions are exact",
  "A value is classified as a number unless it is NaN and as finite unless it is NaN or infinite, for every bit pattern. The peak width is sqrt(noise^2 + energy*fano*(2.3548)^2*3.85e-3) shaped, growing with energy and noise, and the error functions satisfy erf(x) + erfc(x) = 1, erf(-x) = -erf(x) and |erf(x)| <= 1.",
  ["inputs"], "all doubles (classification) and all real arguments (response functions)",
  NOT + "no stable test touches these functions.",
  ["fisx_math.cpp", "fisx_math.h"], [("isNumber/isFiniteNumber/getFWHM/erf/erfc", "fisx_math.cpp")],
  ["Math::isNumber", "Math::isFiniteNumber", "Math::getFWHM", "Math::erf"])

p("S01", "Shell emission and Auger ratios are normalised and correctly attributed",
  "Whatever transition rates a shell is given, its radiative ratios are the positive rates of its own transitions divided by their sum, with totals ignored and labels case-insensitive, so they sum to 1. Non-radiative rates are split into Auger and Coster-Kronig groups by the destination shells, each group normalised on its own. Only the shells K, L1-L3 and M1-M5 exist; any other name is refused.",
  ["inputs"], "all rates and label sets",
  NOT + "the shell class has no stable test.",
  ["fisx_shell.cpp"], [("setRadiativeTransitions/setNonradiativeTransitions/_updateFluorescenceRatios...", "fisx_shell.cpp")],
  ["Shell::getFluorescenceRatios", "Shell::getAugerRatios", "Shell::getCosterKronigRatios"])

p("S02", "Vacancy-transfer probabilities conserve vacancies",
  "When a shell decays, the probability of moving the vacancy to another shell is the sum over its radiative, Auger and Coster-Kronig channels of yield times ratio, each Auger transition leaving its two final vacancies. Unknown constant names, and yields that sum above 1, are refused.",
  ["inputs"], "all fluorescence and Coster-Kronig yields and transition rates",
  NOT + "the shell class has no stable test.",
  ["fisx_shell.cpp"], [("getDirectVacancyTransferRatios/setShellConstants", "fisx_shell.cpp")],
  ["Shell::getDirectVacancyTransferRatios", "Shell::getShellConstants"])

p("E01", "Element attenuation interpolates its tables and sums its processes",
  "At a tabulated energy an element's coherent, incoherent and pair coefficients are the tabulated ones, and between two energies they follow the log-log line through the neighbouring points. Each shell's photoelectric coefficient does the same from its edge upwards, taking the upper of two values tabulated at the edge. The photoelectric coefficient is the sum over shells and the rest, and the total is always the sum of the processes.",
  ["inputs"], "all ascending energy grids (with edges), positive coefficients and query energies",
  NOT + "no stable test computes an attenuation coefficient.",
  ["fisx_element.cpp"], [("getMassAttenuationCoefficients/getInterpolationIndices", "fisx_element.cpp")],
  ["Element::getMassAttenuationCoefficients"])

p("E02", "Photoelectric absorption is shared only among shells that can be excited",
  "A shell takes part in photoelectric absorption only when the photon energy reaches its binding energy and that is positive; every other shell's share is zero. The initial vacancy distribution is each shell's share of the absorption, so it is never negative and sums to 1 when any shell is excited.",
  ["inputs"], "all binding energies, partial coefficients and photon energies",
  NOT + "no stable test computes partial coefficients.",
  ["fisx_element.cpp"], [("getPartialPhotoelectricMassAttenuationCoefficients/getInitialPhotoelectricVacancyDistribution/extractEdgeEnergies", "fisx_element.cpp")],
  ["Element::getPhotoelectricWeights", "Element::getMassAttenuationCoefficients"])

p("E03", "The vacancy cascade is linear and only moves vacancies outwards",
  "Letting an initial vacancy distribution decay adds, from the innermost shell outwards, each shell's transfer probability times its accumulated vacancies to shells listed after it, and never removes a vacancy already there. The result is linear in the initial distribution and the same whether or not previously computed cascades are reused.",
  ["inputs", "histories"], "all initial distributions and shell constants, first and repeated calls",
  NOT + "the cascade has no stable test.",
  ["fisx_element.cpp"], [("getCascadeModifiedVacancyDistribution", "fisx_element.cpp")],
  ["Element::getCascadeModifiedVacancyDistribution"])

p("E04", "Emitted lines carry the right energy and the right share of vacancies",
  "Each emitted line of an element has the energy difference between its two shells' binding energies and a rate equal to the vacancies in its shell times that shell's fluorescence yield times the line's ratio. Rates are never negative and per shell they add up to vacancies times yield.",
  ["inputs"], "all binding energies, yields, ratios and vacancy distributions",
  NOT + "line emission has no stable test.",
  ["fisx_element.cpp"], [("getXRayLines/getXRayLinesFromVacancyDistribution/getEmittedXRayLines", "fisx_element.cpp")],
  ["Element::getXRayLines", "Element::getXRayLinesFromVacancyDistribution"])

p("E05", "Element caches never change a result",
  "Attenuation results are identical with the cache enabled, disabled, filled for other energies, updated or cleared. After any change to the element's data, results reflect the new data and never a value cached before the change.",
  ["histories", "inputs"], "all sequences of cache operations, data changes and queries, for all energies",
  NOT + "cache staleness needs multi-step call histories.",
  ["fisx_element.cpp"], [("fillCache/updateCache/clearCache/isEnergyCached", "fisx_element.cpp")],
  ["Element::getMassAttenuationCoefficients", "Element::getXRayLines..."])

p("L01", "Chemical formulas are parsed to the right atom counts",
  "A formula made of element symbols, positive multiplicities and parenthesised groups yields for every element the sum over its occurrences of its count times the factors of all enclosing groups. Text that is not such a formula (unbalanced parentheses, misplaced digits or other characters) yields no composition.",
  ["inputs"], "all formula strings up to the stated length over the formula alphabet",
  NOT + "no stable test parses a formula.",
  ["fisx_elements.cpp"], [("Elements::parseFormula", "fisx_elements.cpp")],
  ["Elements::getComposition", "Elements::parseFormula"])

p("L02", "Compositions are elemental mass fractions that sum to 1",
  "Resolving a formula or material to elements gives mass fractions that sum to 1: formulas are weighted by atomic mass and materials by the mass fractions of their components, recursively. A name that reads as an element or a formula is taken as such and otherwise as a known material (additional materials first where they are given), and an unknown name anywhere gives no composition rather than a partial one.",
  ["inputs"], "all compositions, nesting, atomic masses and additional-material lists within the bound",
  NOT + "no stable test resolves a composition.",
  ["fisx_elements.cpp"], [("Elements::getComposition", "fisx_elements.cpp")],
  ["Elements::getComposition"])

p("L03", "Mixture attenuation is the mass-fraction weighted sum",
  "For a mixture, every attenuation process and the total are the sums over its elements of mass fraction times the element's coefficient, and the total is the sum of the processes. Single-energy and energy-list queries, and queries by composition and by name, agree.",
  ["inputs"], "all compositions and element coefficients within the bound",
  NOT + "no stable test computes a mixture.",
  ["fisx_elements.cpp"], [("Elements::getMassAttenuationCoefficients", "fisx_elements.cpp")],
  ["Elements::getMassAttenuationCoefficients"])

p("L04", "Peak families list exactly the excitable, fluorescing shells in order",
  "The peak families reported for a set of elements and an energy are exactly those shells whose binding energy is positive and below the energy and that can fluoresce, each once, ordered by binding energy.",
  ["inputs"], "all binding energies, yields and energies for the stated shells",
  NOT + "no stable test lists families.",
  ["fisx_elements.cpp"], [("Elements::getPeakFamilies", "fisx_elements.cpp")],
  ["Elements::getPeakFamilies"])

p("L05", "Escape peaks have the right energies, ratios and thresholds",
  "Escape peaks lie at the incident energy minus an emitted line's energy, with positive ratios given by the absorption-weighted escape formula, and lines not above the intensity threshold are left out; no more than the maximum number of peaks are listed, lines closer than the energy threshold counting as one. Asking again, with or without the cache, gives the same answer, and changing the detector, its thresholds or the data of an element of the library is reflected at once.",
  ["inputs", "histories"], "all coefficients, lines and thresholds within the bound; repeated queries and setting changes",
  NOT + "no stable test computes escape peaks.",
  ["fisx_elements.cpp", "fisx_detector.cpp"], [("Elements::getEscape/updateEscapeCache", "fisx_elements.cpp"), ("Detector::getEscape", "fisx_detector.cpp")],
  ["Elements::getEscape", "Detector::getEscape"])

p("L06", "Excitation factors scale with beam and stay attributed to their lines",
  "Excitation factors of an element for several energies are those of each energy on its own multiplied by its weight, and each line's factor is the photoelectric coefficient times the emission rate of that line.",
  ["inputs"], "all energies, weights and element data within the bound",
  NOT + "no stable test computes excitation factors.",
  ["fisx_elements.cpp", "fisx_element.cpp"], [("getExcitationFactors", "fisx_elements.cpp, fisx_element.cpp")],
  ["Elements::getExcitationFactors", "Element::getXRayLines..."])

p("L07", "Shell data files are applied to the right element and shell",
  "Loading shell constants or radiative or non-radiative rates from a file gives element Z exactly the values on its row under each column's label, whatever the number of rows and columns, and leaves other shells alone. A file without one scan per shell, with a row that does not match the labels or with an unknown atomic number is refused.",
  ["inputs"], "all table contents, labels and sizes within the bound",
  NOT + "the data needed to construct the library is not in the repository, so nothing loads a file.",
  ["fisx_elements.cpp"], [("setShellConstantsFile/setShellRadiativeTransitionsFile/setShellNonradiativeTransitionsFile", "fisx_elements.cpp")],
  ["Elements::getShellConstants", "Elements::getRadiativeTransitions"])

p("L08", "User-supplied attenuation data stay self-consistent",
  "After a user replaces an element's attenuation coefficients, each stored process returns the values supplied at the supplied energies, the total is their sum, and the partial photoelectric coefficients of the excited shells still add up to the photoelectric coefficient.",
  ["inputs", "histories"], "all supplied grids and coefficients within the bound",
  NOT + "no stable test supplies coefficients.",
  ["fisx_elements.cpp", "fisx_element.cpp"], [("setMassAttenuationCoefficients", "fisx_elements.cpp"), ("setTotal/PartialPhotoelectricMassAttenuationCoefficient", "fisx_element.cpp")],
  ["Elements::getMassAttenuationCoefficients", "Element::getMassAttenuationCoefficients"])

p("D01", "Cross-section library interpolates and sums its tables",
  "Library cross sections reproduce the tables at tabulated energies, lie on the log-log line between neighbouring ones, and the totals are the sums of the processes. Photoelectric weights of an energy are non-negative, zero for shells above the energy, and sum to 1.",
  ["inputs"], "all tables and energies within the bound",
  "The cross-section data file is absent from the repository, so no stable test can construct the library.",
  ["fisx_epdl97.cpp"], [("getMassAttenuationCoefficients/getPhotoelectricWeights", "fisx_epdl97.cpp")],
  ["EPDL97::getMassAttenuationCoefficients", "EPDL97::getPhotoelectricWeights"])

p("D02", "Library answers do not depend on earlier queries",
  "An answer for one element and energy is the same whatever other elements, tables and energies were queried before it, in any order and whether asked singly or in lists.",
  ["histories", "inputs"], "all query histories up to the stated length, all energies",
  "No stable test can construct the library; the interpolation keeps a remembered position between calls.",
  ["fisx_epdl97.cpp"], [("getInterpolationIndices (remembered index)", "fisx_epdl97.cpp")],
  ["EPDL97::getMassAttenuationCoefficients"], [("lastI0", "last lower index used", "fisx_epdl97.cpp")])

p("F01", "INI files give back their sections, keys and values",
  "Every key and value written in a section of an INI text is returned under that section and key with surrounding blanks, quotes and comments removed, continuation lines joined, and later sections not mixed in. Section lookup without case sensitivity finds a section whatever its case.",
  ["inputs"], "all short file contents over the stated alphabet",
  NOT + "no stable test parses an INI file.",
  ["fisx_simpleini.cpp", "fisx_simpleini.h"], [("SimpleIni::readFileName/readSection", "fisx_simpleini.cpp")],
  ["SimpleIni::readSection", "SimpleIni::getSections"])

p("F02", "Specfile scans, labels and data are read back as written",
  "Every scan of a specfile is found, its labels are those on its label line separated by double blanks, and its data are the numbers on its data lines, for LF and CRLF line ends and with or without a final line end. Asking for a scan that does not exist is refused.",
  ["inputs"], "all short file contents over the stated alphabet",
  "The stable tests read two fixed files.",
  ["fisx_simplespecfile.cpp", "fisx_simplespecfile.h"], [("updateScanIndex/getScanLabels/getScanData", "fisx_simplespecfile.cpp")],
  ["SimpleSpecfile::getNumberOfScans", "SimpleSpecfile::getScanLabels", "SimpleSpecfile::getScanData"])

p("F03", "Configuration files are mapped to the experiment they describe",
  "Reading a configuration yields the beam, materials, layers, attenuators, detector and geometry written in it, with only active entries used and each value going to its own quantity. Reading another configuration afterwards leaves nothing of the previous one.",
  ["inputs", "histories"], "all numeric values and on/off flags of the recognised entries",
  NOT + "no stable test reads a configuration.",
  ["fisx_xrfconfig.cpp", "fisx_xrfconfig.h"], [("XRFConfig::readConfigurationFromFile", "fisx_xrfconfig.cpp")],
  ["XRFConfig::getBeam", "XRFConfig::getMaterials"])

p("X01", "Geometric efficiency is the solid-angle fraction of the detector",
  "The geometric efficiency is half of one minus the cosine of the half-angle the detector disc subtends from the sample, so it lies between 0 and 0.5, grows with diameter and falls with distance. A detector without diameter has efficiency 1.",
  ["inputs"], "all diameters, distances and sample depths",
  NOT + "the stable tests only instantiate the class.",
  ["fisx_xrf.cpp"], [("XRF::getGeometricEfficiency", "fisx_xrf.cpp")],
  ["XRF::getGeometricEfficiency"])

p("X02", "Experiment setup is validated and stored as given",
  "Layers, attenuators, detector and angles given to the calculation are the ones used, a reference layer outside the sample or an empty sample is refused, and a scattering angle not given is the sum of incoming and outgoing angles. Transmission through user tables multiplies the corresponding beam path and nothing else.",
  ["inputs", "histories"], "all angles, layer lists and reference indices",
  NOT + "the stable tests only instantiate the class.",
  ["fisx_xrf.cpp"], [("setSample/setGeometry/setBeamFilters/setAttenuators/setTransmissionTable", "fisx_xrf.cpp")],
  ["XRF::getConfiguration", "XRF::getMultilayerFluorescence"])

p("X03", "Primary fluorescence follows the fundamental-parameter formula",
  "Without secondary excitation, each line's primary intensity is, per layer, the beam weight times filter transmissions, excitation factor, layer self-absorption term, and absorption by the layers above on the way in and out, times attenuator, detector and geometry terms on the way out; contributions of beam energies add linearly.",
  ["inputs"], "all coefficients, layer data, angles, weights within the stated layer, element and energy counts",
  NOT + "no stable test computes fluorescence.",
  ["fisx_multilayer.cpp", "fisx_xrf.cpp"], [("XRF::getMultilayerFluorescence", "fisx_multilayer.cpp")],
  ["XRF::getMultilayerFluorescence"])

p("X04", "Secondary fluorescence adds up and is attributed to its sources",
  "A line's secondary intensity is the sum of the contributions listed for each exciting element, layer and line, none negative, only lines above the excited edge contribute, and the total rate is efficiency times the sum of primary and secondary intensities. Asking for a higher order never changes the lower-order intensities.",
  ["inputs", "configurations"], "all coefficients and layer data within the stated counts; orders 0, 1 and 2",
  NOT + "no stable test computes fluorescence.",
  ["fisx_multilayer.cpp"], [("secondary and tertiary loops", "fisx_multilayer.cpp")],
  ["XRF::getMultilayerFluorescence"])

p("X05", "Results are complete, independent of request order and history",
  "The results for a requested element, family and layer are the same whether requested alone or with others and in whatever order, and repeating a calculation after other calculations gives the same numbers. Mass-fraction mode gives the plain results multiplied by the element's mass fraction in the layer. (Tertiary excitation is documented to follow the requested peaks, so request independence is claimed for primary and secondary excitation.)",
  ["inputs", "histories"], "all request lists and previous calculations within the bound, orders 0 and 1",
  NOT + "no stable test computes fluorescence.",
  ["fisx_multilayer.cpp", "fisx_xrf.cpp"], [("request parsing and bookkeeping", "fisx_multilayer.cpp")],
  ["XRF::getMultilayerFluorescence"])

p("P01", "Python bindings hand values over unchanged",
  "Calling the library from Python gives the results of the C++ library for the same arguments, converting names between text and bytes without loss.",
  ["inputs"], "all argument values of the bound methods",
  "The stable tests exercise only a few bound methods with fixed arguments.",
  [], [("Cython wrappers", "python/cython/*.pyx")],
  ["fisx.*"])
P[-1]["anchors"]["files"] = ["python/cython/", "python/fisx/"]

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
