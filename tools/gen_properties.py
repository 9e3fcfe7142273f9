"""Writes properties.jsonl (one source for the text of the properties)."""
import json, os
S = "src/sectionproperties/"
SEC, FEA, PLA, SOL = S+"analysis/section.py", S+"analysis/fea.py", S+"analysis/plastic_section.py", S+"analysis/solver.py"
GEO, PRE, BIS, RHI = S+"pre/geometry.py", S+"pre/pre.py", S+"pre/bisect_section.py", S+"pre/rhino.py"
POST, STR, FIB = S+"post/post.py", S+"post/stress_post.py", S+"post/fibre.py"
LIB = S+"pre/library/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("P01", "Area properties equal the exact integrals over the polygon",
 "For every simple polygon, with or without holes, the reported area, perimeter, first moments, second moments about the global and centroidal axes and centroid of a homogeneous section equal the exact polygon integrals. The values do not depend on the mesh size, mesh angle or coarse option, nor on how far from the origin the section lies, beyond rounding.",
 ["inputs", "configurations"], "All simple polygons with any number of holes, placed anywhere at any scale, and all mesh settings.",
 "The tests compare a handful of fixed shapes on one mesh each; the claim is over all polygons and meshes.",
 [GEO, PRE, FEA, SEC, POST],
 [("element integrals", FEA+":Tri6.geometric_properties"), ("assembly", SEC+":Section.calculate_geometric_properties"), ("centroidal transfer", POST+":SectionProperties.calculate_centroidal_properties"), ("holes and facets", GEO+":Geometry.create_facets_and_control_points")],
 ["Section.get_area", "get_perimeter", "get_q", "get_ig", "get_c", "get_ic", "Geometry.calculate_*"])

prop("P02", "Composite results are modulus- and density-weighted sums over the regions",
 "For every assembly of regions with their own materials, the reported axial rigidity, modulus-weighted first and second moments, elastic centroid, mass, area and effective elastic modulus, shear modulus and Poisson's ratio equal the sums over the regions of the exact integrals weighted by each region's own material. The reported perimeter is that of the outer boundary of the joined regions, and -1 when the regions are apart. Each region keeps its own material however the regions are ordered, nested, separated by voids or refined by the mesh.",
 ["inputs", "configurations"], "All tilings of a section by material regions (strips, inclusions, nested rings, stacked plates, voids), all positive material values, all orders and meshes.",
 "The tests use a few fixed composite sections with two materials; wrong region-to-material matching shows only in particular layouts.",
 [GEO, PRE, SEC, FEA, POST],
 [("region attributes", SEC+":Section.__init__"), ("region control points", GEO+":CompoundGeometry.compile_geometry"), ("weighted sums", SEC+":Section.calculate_geometric_properties")],
 ["get_ea", "get_eq", "get_eig", "get_eic", "get_mass", "get_perimeter", "get_e_eff", "get_g_eff", "get_nu_eff"])

prop("P03", "Section moduli, radii and principal results follow from the exact geometry",
 "For every section, homogeneous or composite, the elastic section moduli equal the centroidal second moments divided by the distance to the extreme fibre on the stated side, the radii of gyration equal the root of second moment over area (both modulus-weighted), and the reported principal angle is the direction about which the second moment is largest and the product moment vanishes. The principal second moments, section moduli and radii are those of that direction, on the stated sides.",
 ["inputs"], "All polygons and composites, at all orientations, including sections whose principal axes coincide with, or are far from, the reference axes.",
 "Tests cover a few sections mostly aligned with the axes; sign, quadrant and side errors need generic orientations and unsymmetric shapes.",
 [POST, FEA, SEC], [("derived properties", POST+":SectionProperties.calculate_centroidal_properties"), ("principal coordinates", FEA+":principal_coordinate")],
 ["get_z", "get_ez", "get_rc", "get_ip", "get_eip", "get_phi", "get_zp", "get_ezp", "get_rp"])

prop("P04", "The mesh tiles exactly the material of the geometry, region by region",
 "Every generated mesh covers exactly the material of the geometry: its elements are positively oriented, do not overlap, leave holes and voids empty and never straddle two regions, and each region's elements fill exactly that region. Elements respect the region's own maximum size, mid-side nodes lie half-way along their edges, and the minimum-angle request is met away from small input angles; a list of sizes passed in is left as it was.",
 ["inputs", "configurations"], "All single and compound geometries (holes, voids, nested and touching regions) and all mesh sizes, per-region size lists, angles and the coarse option.",
 "Tests only count or plot meshes of fixed shapes; wrong region/hole seeds or size lists need particular layouts.",
 [PRE, GEO, SEC], [("mesh generation", PRE+":create_mesh"), ("holes, facets, control points", GEO+":Geometry.create_facets_and_control_points"), ("void detection", GEO+":CompoundGeometry.compile_geometry")],
 ["Geometry.mesh", "Section.mesh_nodes", "Section.mesh_elements", "Section.elements"])

prop("P05", "Results transform correctly under motion, reflection, scaling and modulus change",
 "Translating, rotating or mirroring a section changes its geometric, warping and plastic results exactly as the motion prescribes, and scaling its dimensions by a factor scales every result by the corresponding power of that factor. Multiplying every elastic modulus by a constant multiplies the modulus-weighted results by it and leaves centroids, shear centres, angles, radii and shear-area ratios unchanged, and giving a section one uniform material yields its geometric results times that modulus.",
 ["inputs"], "All sections, motions, scale factors (including sections of millimetre to metre units) and modulus factors.",
 "Tests check at most one rotated rectangle; covariance is a relation between runs over all motions.",
 [FEA, SEC, POST, PLA, GEO], [("principal/global transforms", FEA+":principal_coordinate"), ("centroid-shifted elements", SEC+":Section.calculate_warping_properties"), ("transform methods", GEO+":Geometry.rotate_section")],
 ["all Section.get_* results"])

prop("P06", "Torsion and warping constants solve the Saint-Venant problem on the mesh",
 "For every connected section and material assignment the reported torsion constant and warping constant equal those obtained from an independent quadratic finite element solution of the Saint-Venant warping problem on the same mesh. The torsion constant is positive and never exceeds the polar second moment, the warping constant of a homogeneous section is never negative, and both converge to the closed-form values of ellipses, rectangles, circles and thin walls.",
 ["inputs", "configurations"], "All connected sections, open or closed, homogeneous or composite, all meshes.",
 "The validation tests compare a dozen book examples to a few per cent, which hides coefficient errors that only matter for unsymmetric, composite or multi-cell sections.",
 [FEA, SEC, SOL], [("torsion stiffness and load", FEA+":_assemble_torsion"), ("solution with a constraint", SOL+":solve_direct_lagrange"), ("constants", SEC+":Section.calculate_warping_properties")],
 ["get_j", "get_ej", "get_gamma", "get_egamma"])

prop("P07", "Shear centre, shear areas and monosymmetry constants are those of elasticity",
 "For every connected section, material assignment and Poisson's ratio the reported elastic and Trefftz shear centres, shear areas (global and principal) and monosymmetry constants equal those of an independent finite element solution of the flexural shear problem on the same mesh. A shear centre lies on every axis of symmetry and at the centroid of a doubly symmetric section, shear areas are positive and never exceed the area, and the principal-axis values are those of the section turned to its principal axes.",
 ["inputs", "configurations"], "All connected sections, orientations, Poisson's ratios from 0 to 0.5 and meshes.",
 "Tests check these for a few symmetric shapes at fixed Poisson's ratio; the cross terms vanish on symmetric sections.",
 [FEA, SEC], [("shear load vectors", FEA+":Tri6.shear_load_vectors"), ("shear centre integrals", FEA+":Tri6.shear_warping_integrals"), ("shear deformation", FEA+":Tri6.shear_coefficients"), ("monosymmetry", FEA+":Tri6.monosymmetry_integrals")],
 ["get_sc", "get_sc_p", "get_sc_t", "get_as", "get_eas", "get_as_p", "get_eas_p", "get_beta", "get_beta_p"])

prop("P08", "The frame analysis agrees with the full geometric and warping analysis",
 "For every section the area, centroidal second moments, torsion constant and principal angle returned by the frame analysis equal the values the geometric and warping analyses report for the same section, with the same modulus weighting. This holds whichever solver is chosen (to the tolerance of the iterative solver, which may refuse with an error) and whatever was calculated before, and running the frame analysis does not alter results already calculated.",
 ["inputs", "histories", "configurations"], "All connected sections, homogeneous or composite, both solvers, before or after other analyses.",
 "The frame analysis is exercised by one or two fixed sections; it is a second implementation of the same quantities.",
 [SEC, SOL], [("frame analysis", SEC+":Section.calculate_frame_properties")], ["Section.calculate_frame_properties"])

prop("P09", "Plastic neutral axes balance the forces and the plastic moduli are exact",
 "For every section the centroidal and principal plastic neutral axes divide it so that the yield forces on the two sides are equal, and the reported plastic moduli, or plastic moments for composite sections, equal the exact yield-force moments of the two sides about those axes. Shape factors equal plastic over elastic moduli on the stated side (plastic over yield moment for composite sections), and the plastic moment is never below the moment at first yield; the result does not depend on the mesh or on where the section lies.",
 ["inputs", "configurations"], "All homogeneous and composite sections (differing yield strengths), all orientations, positions and scales.",
 "Tests cover symmetric shapes and two composite sections; the search and the splitting of the geometry depend on the shape, position and orientation.",
 [PLA, BIS, GEO, SEC], [("neutral axis search", PLA+":PlasticSection.pc_algorithm"), ("force balance", PLA+":PlasticSection.evaluate_force_eq"), ("splitting", BIS+":create_line_segment")],
 ["get_pc", "get_pc_p", "get_s", "get_sp", "get_mp", "get_mp_p", "get_sf", "get_sf_p"])

prop("P10", "Yield moments are the moments at first yield anywhere in the section",
 "For every section with materials, each reported yield moment is the moment about that axis, bending about it alone, at which the bending stress first reaches the yield strength of the material at some point of the section. It depends on each region's own modulus and yield strength, wherever in the section the critical point lies.",
 ["inputs"], "All composite sections and combinations of moduli and yield strengths, all orientations.",
 "Tests cover rectangles, one I-section and one composite; the governing point may be in any region and on either side.",
 [SEC, POST, FEA], [("yield moments", SEC+":Section.calculate_geometric_properties"), ("extreme stress per element", FEA+":Tri6.local_element_stress")], ["get_my", "get_my_p"])

prop("P11", "Normal stresses follow bending theory exactly and balance the applied actions",
 "Under any axial force and bending moments about the reference and principal axes, the reported normal stress at every node equals the value of linear bending theory for unsymmetric, modulus-weighted sections, component by component with the documented signs. Integrated over the section the total normal stress returns exactly the applied axial force and moments.",
 ["inputs"], "All sections (homogeneous or composite), all combinations of axial force and moments, all orientations.",
 "Tests cover a rectangle and one textbook section; sign and coupling errors need generic orientations and combined actions.",
 [FEA, SEC, STR], [("element stresses", FEA+":Tri6.element_stress"), ("nodal averaging per material", SEC+":Section.calculate_stress")], ["Section.calculate_stress", "StressPost.get_stress"])

prop("P12", "Shear stresses from torsion and shear force balance the applied actions",
 "Under any torsion moment and shear forces the reported shear stress field integrates over the section to the applied shear forces, has the applied torsion moment about the shear centre, and carries no net force from torsion alone. It equals the stress field of an independent finite element solution on the same mesh, component by component with the documented signs.",
 ["inputs"], "All connected sections, homogeneous or composite, Poisson's ratios, orientations and combinations of actions.",
 "Tests compare a few peak values; global balance must hold for all shapes and actions.",
 [FEA, SEC], [("element shear stresses", FEA+":Tri6.element_stress"), ("local stresses", FEA+":Tri6.local_element_stress"), ("warping and shear functions", SEC+":Section.calculate_warping_properties")],
 ["Section.get_stress_at_points", "StressPost.get_stress"])

prop("P13", "Stress results superpose, and combined stresses follow from the components",
 "Stresses are linear in the actions: the stress field for combined actions is the sum of the fields for each action alone, and scaling the actions scales the fields. In every result the summed, resultant shear, principal and von Mises stresses equal the values defined by the component stresses at that node, for every material group.",
 ["inputs"], "All sections and all combinations and magnitudes (including signs and zeros) of the eight actions.",
 "Tests evaluate single actions or one combination; omitted or mis-signed terms appear only in particular combinations.",
 [STR, SEC, FEA], [("combined stresses", STR+":StressResult.calculate_combined_stresses"), ("stress dictionary", STR+":StressPost.get_stress")], ["Section.calculate_stress", "StressPost.get_stress"])

prop("P14", "Stress at a point is the stress of the element field at that point",
 "For every point of the section the stress returned for that point agrees with bending theory for its normal part and with the nodal stress field at nodes and in the mesh's refinement limit for its shear part; a point outside the section, in a hole or in a void yields no stress rather than a number. The answer for a point does not depend on the other points asked for or on their order.",
 ["inputs"], "All sections (holes, composites), all points inside, on edges and nodes, and outside, all actions.",
 "Tests ask for a couple of interior points of one section.",
 [SEC, FEA], [("point location and evaluation", SEC+":Section.get_stress_at_points"), ("containment", FEA+":Tri6.point_within_element")], ["Section.get_stress_at_points"])

prop("P15", "Results depend only on the section, not on the history of calls",
 "Whatever sequence of analyses, stress calculations, getters, prints and plots is made on a section, every result equals that of a fresh section given only the prerequisite analyses; repeating an analysis changes nothing, and stress results already returned never change. A result whose analysis has not been run, or that needs a different kind of section, is refused with an error instead of returning a stale or wrong value.",
 ["histories"], "All sequences of public calls on one or several sections built from the same geometry.",
 "Each test runs one fixed call order.",
 [SEC, POST, STR, PLA], [("state on the section", SEC+":Section"), ("stress snapshot", STR+":StressPost.__init__")], ["every public Section method", "StressPost"])

prop("P16", "Geometry motions move the shape, control points and materials together",
 "Shifting, rotating, mirroring and aligning a geometry or compound of any size returns a new geometry whose outline, holes, regions and assigned control points are moved exactly as requested (about the requested point, or the whole geometry's centre when asked), with material and rounding tolerance kept and the original untouched. Alignment puts the stated side, edge or centre exactly on the target, and inverse motions restore the original.",
 ["inputs", "histories"], "All geometries and compounds, motion arguments and chains of motions.",
 "Tests apply single motions to a unit square.",
 [GEO], [("Geometry motions", GEO+":Geometry.shift_section"), ("compound motions", GEO+":CompoundGeometry.mirror_section"), ("alignment", GEO+":Geometry.align_to")],
 ["Geometry.shift_section", "rotate_section", "mirror_section", "align_to", "align_center"])

prop("P17", "Set operations follow point-set algebra and keep each region's material",
 "Union, subtraction, intersection, symmetric difference and addition of geometries and compounds produce exactly the point set of the operation, with disjoint, touching, nested, equal and empty cases handled, and leave the operands unchanged. Material survives on every remaining region as documented (subtraction and addition keep each region's own material), so that a meshed result assigns each point the material of the region it came from; an assigned control point survives a union, and a subtraction that leaves it inside.",
 ["inputs", "histories"], "All pairs of geometries and compounds and chains of operations, including operations that cut a geometry into pieces or remove it.",
 "Tests use two squares with one relative position.",
 [GEO], [("operators", GEO+":Geometry.__sub__"), ("compound construction", GEO+":CompoundGeometry.__init__"), ("filtering", GEO+":filter_non_polygons")],
 ["Geometry operators |,-,&,^,+", "CompoundGeometry.geoms"])

prop("P18", "Splitting, offsetting and moving points reshape the section as requested",
 "Splitting along any line returns the parts on the stated sides of the line, which together make up the original with its materials. Offsetting outward or inward gives the dilated or eroded outline, interior or both, as requested by the distance, and moving listed points moves exactly those vertices, each result carrying the material and a usable control point.",
 ["inputs"], "All geometries and compounds, lines, offset distances and sides, points and displacements, including zero coordinates.",
 "Tests split a unit square, offset a few rectangles and shift points by one vector.",
 [GEO, BIS], [("splitting", GEO+":Geometry.split_section"), ("offsetting", GEO+":Geometry.offset_perimeter"), ("point moves", GEO+":Geometry.shift_points"), ("side classification", BIS+":group_top_and_bottom_polys")],
 ["split_section", "offset_perimeter", "shift_points"])

prop("P19", "Points, facets, control points and holes describe a geometry losslessly",
 "The points, facets, control points and holes of any geometry, or of a compound of regions side by side with or without voids, rebuild the same geometry, regions and materials when passed back to the constructors from points; descriptions that cannot be rebuilt (regions embedded in another's hole) are refused. Facets form closed loops over existing points, every control point lies inside its own region and in no other, and every hole point lies in a void and outside all material.",
 ["inputs"], "All geometries and compounds with holes, nested regions and voids, in any orientation, starting point and numbering of their loops.",
 "Tests rebuild three fixed descriptions.",
 [GEO], [("points and facets", GEO+":create_points_and_facets"), ("from points", GEO+":CompoundGeometry.from_points")], ["Geometry.points/facets/control_points/holes", "from_points"])

prop("P20", "CAD import reproduces the drawn outlines",
 "Reading a DXF or Rhino file written from closed outlines returns a geometry or compound with the same regions: same areas, holes where outlines are nested, same position, disjoint outlines kept as separate regions. Unusable input is refused with an error.",
 ["inputs"], "All drawings of non-crossing closed outlines, drawn as polylines or separate lines in any order and direction.",
 "Tests read five fixed files.",
 [GEO, RHI], [("DXF", GEO+":load_dxf"), ("3dm", RHI+":load_3dm")], ["Geometry.from_dxf", "from_3dm", "CompoundGeometry.from_3dm"])

prop("P21", "Library sections have the dimensions, area and material they are asked for",
 "Every primitive, steel, bridge and NASTRAN library section is a valid outline whose overall dimensions, wall and flange thicknesses and area equal those implied by its parameters, for all parameters in the documented range including zero radii, with the requested material (a single-point arc keeps a valid outline of the overall dimensions). Discretised curves have the stated number of points, and parameter combinations documented as impossible are rejected.",
 ["inputs"], "All parameter values in the documented ranges of every library function.",
 "Only a few library functions are tested at one parameter set.",
 [LIB+"primitive_sections.py", LIB+"steel_sections.py", LIB+"nastran_sections.py", LIB+"bridge_sections.py", LIB+"utils.py"],
 [("arcs", LIB+"utils.py:draw_radius"), ("steel outlines", LIB+"steel_sections.py")], ["sectionproperties.pre.library functions"])

prop("P22", "Reinforced concrete and laminated sections place every bar and layer as asked",
 "Every concrete library section contains exactly the requested bars: each with the requested area and material, inside the concrete at the requested clear cover, in the requested rows with spacing not above the maximum, cut out of the concrete without overlap. Laminated timber sections stack layers of the given thicknesses and materials without gaps or overlaps, and impossible parameters are rejected as documented.",
 ["inputs"], "All dimensions, bar counts, diameters, areas, covers and spacings that fit, and all layer thickness lists.",
 "Tests use one parameter set per section and equal layers.",
 [LIB+"concrete_sections.py", LIB+"timber_sections.py"], [("bars", LIB+"concrete_sections.py:add_bars"), ("layers", LIB+"timber_sections.py:clt_rectangular_section")], ["concrete_* sections", "clt_rectangular_section"])

prop("P23", "Transformed and printed results agree with the retrieved results",
 "Transforming a modulus-weighted result to a reference modulus, given as a number or as a material, divides exactly the modulus-carrying results by it and leaves all others alone. Every value in the printed result tables, plain or transformed, is the value the corresponding getter returns, in the requested number format, and the table lists a result exactly when it has been calculated.",
 ["inputs", "histories"], "All sections, analyses run, reference moduli and formats.",
 "Tests print once and compare two references for one section.",
 [SEC, POST], [("getters", SEC+":Section.get_e_ref"), ("tables", POST+":print_results"), ("transformed tables", POST+":print_transformed_results")], ["display_results", "display_transformed_results", "get_e*"])

prop("P24", "The fibre section export represents the section",
 "The exported fibre section contains one fibre per mesh element whose areas, positions and materials reproduce the section: total area, first moments and material of every region, with consecutive unique tags, the requested section tag and material names, and for the torsional formats the warping data of each fibre. Output written to a file is identical to the returned text.",
 ["inputs", "configurations"], "All sections, the three export formats, tags and material mappings.",
 "The export has no direct test.",
 [FIB], [("export", FIB+":to_fibre_section"), ("cells", FIB+":Cell")], ["to_fibre_section"])

prop("P25", "Solver, accelerator and progress choices do not change results",
 "Warping and frame results are the same with the direct and the iterative solver (to its tolerance, unless it refuses with an error), with and without the optional compiled kernels and the optional sparse solver, and with or without progress display. Repeating a run in a new process gives the same values.",
 ["configurations", "inputs"], "All sections and all combinations of solver type, compiled kernels, sparse backend and progress display.",
 "The tests run one configuration.",
 [SOL, FEA, SEC], [("solvers", SOL+":solve_cgs_lagrange"), ("compiled kernels", FEA+":njit")], ["calculate_warping_properties(solver_type=...)", "calculate_frame_properties"])

prop("P26", "Dividing a section into regions of equal material changes nothing",
 "Dividing a section into regions that carry equal materials, whether as the same object or as separately created equal objects, gives the same geometric, warping, plastic, yield and stress results as the undivided section, and equal materials are reported together. Reordering the regions of a compound does not change any result.",
 ["inputs"], "All sections, divisions, orders of regions and ways to supply equal materials.",
 "Tests build each section one way with shared material objects.",
 [SEC, GEO, PRE], [("material groups", SEC+":MaterialGroup"), ("equality of materials", PRE+":Material")], ["Section results", "StressPost.get_stress"])
prop("P27", "Unusable requests are refused and never yield silent numbers",
 "Requests that have no meaning are refused with an error: analysing a geometry without a mesh, invalid geometry or material lists, mesh size lists of the wrong length, unknown side, solver or export names, stresses that need an analysis not yet run. Overlapping or disconnected regions draw a warning, and valid input never does.",
 ["inputs", "histories"], "All kinds of misuse documented as errors or warnings, combined with all valid sections.",
 "Tests trigger each message once on one fixed object; the converse (no warning on valid input) is untested.",
 [SEC, GEO, PRE, FIB], [("checks on construction", SEC+":Section.__init__"), ("overlap and connectivity", GEO+":check_geometry_overlaps")], ["exceptions and warnings of the public API"])

prop("P28", "Plots draw what the section and its results report",
 "Plots of the geometry draw every outline, hole and control point with labels at their places; plots of the mesh draw every element in the colour of its material; the centroid plot marks exactly the centroids calculated, with principal axes through the centroid at the reported angle. Stress contours and vectors draw each point with its own stress, one scale and colour bar for all materials drawn; Mohr's circles have the principal stresses of their point. Plots change no results, and are drawn in the axes or file asked for.",
 ["inputs", "configurations", "histories"], "All sections, analyses run, load cases, stresses, points and plotting options.",
 "The plotting tests only check that nothing is raised.",
 [STR, SEC, GEO, POST], [("contours, vectors, circles", STR+":StressPost.plot_stress"), ("mesh and centroids", SEC+":Section.plot_mesh"), ("outline", GEO+":Geometry.plot_geometry"), ("axes and files", POST+":plotting_context"), ("principal axes", POST+":draw_principal_axis")],
 ["matplotlib artists of the returned axes"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
