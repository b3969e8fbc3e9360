"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
C = 'structuralcodes/codes/'
G = 'structuralcodes/geometry/'
M = 'structuralcodes/materials/'
S = 'structuralcodes/sections/'
FORM = ('Every exported function is transcribed from the code of practice into TLA+ operators over IEEE numbers; TLC judges each '
        'recorded call of the real function (drawn densely at and around every limit of validity and break point, scalars and arrays) against them.')

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), tech='', note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                           'observe_at': ['return values, exceptions and visible attributes of the public API'], 'hook_needed': None},
                  _tech=tech, _note=note))


prop('P01', 'The design code in force is the last valid selection, for everyone',
     'A material, factory or code-dependent call that names a design code uses exactly that code; one that names none uses the code of the last valid global selection, and without any selection it fails with a ValueError. Names of codes are case-insensitive, an unknown name is rejected with a ValueError and leaves the selection as it was, and selecting nothing clears it. Naming a code in a call never changes the global selection, and the national annex is kept in lower case and independent of the code.',
     ['histories', 'inputs'], 'All interleavings of selecting (valid, invalid, none, any case) codes and annexes, querying them, and creating concrete and reinforcement with and without an explicit code.',
     'The tests select one code and create one material; no test follows a history of selections, failed selections and explicit overrides.',
     [C + '__init__.py', M + 'concrete/__init__.py', M + 'reinforcement/__init__.py'],
     [('set_design_code, get_design_codes, _use_design_code', C + '__init__.py'), ('create_concrete', M + 'concrete/__init__.py'), ('create_reinforcement', M + 'reinforcement/__init__.py')],
     [('_CODE, _NATIONAL_ANNEX', 'global selection', C + '__init__.py')],
     'TLA+ state machine of the selection, explored completely by TLC; every transition replayed on the package and random histories trace-validated',
     'The state graph of the session is complete; the code is bound by replaying every transition of it.')
prop('P02', 'Concrete objects derive every property consistently from their code',
     'For each design code, every property of a concrete object equals the value the code of practice gives for its inputs, unless the user gave that property explicitly, in which case exactly the given value is returned and everything derived from it uses it. Impossible inputs and inconsistent explicit values are rejected with a ValueError (or warned about where documented) when the object is made. The constitutive law of a concrete is built from these same properties, so that strength, stiffness and strain limits of the law are those of the object. Other materials made before or after, of the same or other parameters, have no influence.',
     ['inputs', 'configurations'], 'All three codes, all strengths, densities, cement classes, partial factors, every subset of explicit overrides, every constitutive law name.',
     'Tests override one property at a time for a few strengths; the combinations of derived and explicit values are too many to sample by hand.',
     [M + 'concrete/_concrete.py', M + 'concrete/_concreteEC2_2004.py', M + 'concrete/_concreteEC2_2023.py', M + 'concrete/_concreteMC2010.py', 'structuralcodes/core/base.py'],
     [('properties with override', M + 'concrete/_concreteEC2_2004.py'), ('__elastic__, __parabolarectangle__, __sargin__, ...', M + 'concrete/_concreteEC2_2004.py'), ('create_concrete', M + 'concrete/__init__.py')],
     tech='TLA+ specification of material objects (oracle over the formula modules); recorded constructions and reads trace-validated with TLC',
     note='Exact (1e-9) comparison of every property and of the constitutive law parameters on random subsets of overrides.')
prop('P03', 'Reinforcement and basic materials derive every property consistently',
     'Every property of a reinforcement object is the one given, or the one its design code derives from the given ones (design yield strength, yield strain, ultimate strains), and the constitutive law of the material is the one of the chosen name with those properties. A material made with an initial stress or strain responds to an imposed strain as its law shifted by the initial strain; with no compatibility with the surrounding it carries the initial stress whatever the imposed strain. Invalid combinations (both initial strain and stress, unknown law) are rejected with a ValueError, and an initial stress that the law cannot reach with an error. Other materials made before or after, or changed, have no influence.',
     ['inputs', 'configurations'], 'All codes, steel properties, partial factors, law names, initial strains and stresses, compatibility flags, elastic, elastic-plastic and generic materials.',
     'Tests use one steel and one prestress; partial factors, laws and initial states are combined only pairwise.',
     [M + 'reinforcement/_reinforcement.py', M + 'reinforcement/_reinforcementEC2_2004.py', M + 'reinforcement/_reinforcementEC2_2023.py', M + 'reinforcement/_reinforcementMC2010.py', M + 'basic/_elastic.py', M + 'basic/_elasticplastic.py', M + 'basic/_generic.py', 'structuralcodes/core/base.py'],
     [('initial strain handling', 'structuralcodes/core/base.py'), ('fyd, epsyd, epsud', M + 'reinforcement/_reinforcementEC2_2004.py')],
     tech='TLA+ specification of material objects; recorded constructions, reads and stresses trace-validated with TLC', note='Exact comparison at 1e-9, initial strain of a prescribed stress at 1e-6.')
prop('P04', 'A constitutive law returns the stress of its model, for scalars and arrays',
     'For every strain the stress is the one of the mathematical model of the law with its parameters (elastic, elastic-plastic with hardening, parabola-rectangle, bilinear in compression, Sargin, Popovics, multilinear user-defined with its rule beyond the last point), and zero beyond the ultimate strains for the laws that model failure (a strain within 1e-6 of an ultimate strain counts as that strain; elastic laws and user-defined laws with explicit strain limits are not cut). A scalar gives a scalar and an array gives an array with the same values element by element, of any numeric type. Parameters that make no sense are rejected with a ValueError when the law is made.',
     ['inputs'], 'All laws, all parameters, all strains, in particular the kinks and ends of the branches, scalar, list, integer and array arguments.',
     'Tests sample a handful of strains per law, rarely the break points and never arrays that span all branches.',
     [M + 'constitutive_laws/' + f for f in ('_elastic.py', '_elasticplastic.py', '_parabolarectangle.py', '_bilinearcompression.py', '_sargin.py', '_popovics.py', '_userdefined.py', '__init__.py')],
     [('get_stress', M + 'constitutive_laws/*.py'), ('preprocess_strains_with_limits', 'structuralcodes/core/base.py')],
     tech='TLA+ definition of each law; recorded stresses trace-validated with TLC', note='1e-9 on the stress; at the strains where a branch jumps both one-sided values are accepted within a band of 1e-10.')
prop('P05', 'Tangent, secant and strain limits agree with the stress of the law',
     'The tangent is the derivative of the stress on each smooth branch and zero beyond the ultimate strain, the secant is stress over strain and the initial tangent at zero strain. The minimum and maximum strains of a law are the ends of the range in which it carries stress (its yield strains when those are asked for). Scalars and arrays agree element by element.',
     ['inputs'], 'All laws and their combinations, all parameters, all strains away from the kinks (both sides of every kink).',
     'Tests compare a few tangents with constants; the relation between stress, tangent, secant and limits is not checked for any range of strains.',
     [M + 'constitutive_laws/' + f for f in ('_elastic.py', '_elasticplastic.py', '_parabolarectangle.py', '_bilinearcompression.py', '_sargin.py', '_popovics.py', '_userdefined.py', '_parallel.py', '_initial_strain.py')] + ['structuralcodes/core/base.py'],
     [('get_tangent, get_ultimate_strain', M + 'constitutive_laws/*.py'), ('get_secant', 'structuralcodes/core/base.py')],
     tech='TLA+ definition of each law and of its derivative; recorded tangents, secants and limits trace-validated with TLC', note='1e-9 against the analytic derivative.')
prop('P06', 'Polynomial pieces of a law reproduce its stress along any strain plane',
     'The polynomial coefficients and strain ranges that a law supplies for exact integration, evaluated for any linear strain distribution, give the stress of the law at every strain, and zero where it carries none. The ranges do not overlap and leave no gap where the law carries stress. Curves without a polynomial form (Sargin, Popovics, a parabola of another degree than two) are replaced by linear pieces that meet the curve at their ends. The same holds for the tangent stiffness coefficients and the tangent.',
     ['inputs'], 'All laws that support exact integration, all parameters, all strain planes (also constant strain), all positions.',
     'Tests compare coefficient lists with constants for one strain plane; equality of polynomial and law over the whole plane is never checked.',
     [M + 'constitutive_laws/' + f for f in ('_elastic.py', '_elasticplastic.py', '_parabolarectangle.py', '_bilinearcompression.py', '_userdefined.py', '_parallel.py', '_initial_strain.py')],
     [('__marin__, __marin_tangent__', M + 'constitutive_laws/*.py')],
     tech='TLA+ evaluation of the pieces against the TLA+ definition of the law, over recorded coefficients, with TLC', note='1e-9 relative to the strength; 12 % of the strength inside the linear pieces of a curve, 1e-7 at their ends; an elastic-plastic law without ultimate strain is judged up to twice its yield strain, where its pieces end.')
prop('P07', 'Shifted and parallel laws are the exact combination of their parts',
     'A law with an initial strain responds to a strain as its base law responds to the sum of the strain and the initial strain, with limits shifted accordingly; without strain compatibility it always gives the stress of the initial strain and practically no stiffness (at most a millionth of the initial one). A parallel combination gives the weighted sum of the stresses, and of the tangents, of its parts. Combinations can be nested and behave like a law in every other respect.',
     ['inputs', 'configurations'], 'All base laws, initial strains, compatibility flags, weights, nesting, strains.',
     'Tests use one base law and one nesting; sums of laws with different break points are not covered.',
     [M + 'constitutive_laws/_initial_strain.py', M + 'constitutive_laws/_parallel.py'],
     [('InitialStrain', M + 'constitutive_laws/_initial_strain.py'), ('Parallel', M + 'constitutive_laws/_parallel.py')],
     tech='Recursive TLA+ definition of composed laws; recorded responses trace-validated with TLC', note='1e-9 on stress, tangent, limits and pieces for random trees of laws.')
prop('P08', 'Queries have no side effects',
     'Asking a law, material, geometry or section for a value never changes the arguments passed in, the object asked or any other object, and asking twice gives the same answer. Transforming a geometry leaves the original as it was. Results already handed out never change when more is computed.',
     ['histories', 'inputs'], 'All sequences of queries on shared objects, with array, list and scalar arguments.',
     'Each test makes fresh objects and asks one question; interference between two questions is not observed.',
     [M + 'constitutive_laws/_bilinearcompression.py', M + 'constitutive_laws/_sargin.py', G + '_geometry.py', S + '_generic.py'],
     [('copying of arguments', 'structuralcodes/core/base.py'), ('immutable transforms', G + '_geometry.py')],
     tech='TLA+ state machine in which queries stutter; recorded histories with fingerprints of every object trace-validated with TLC', note='Fingerprints cover all public values of the objects and bytes of the arguments.')
prop('P09', 'Rigid motions of geometries are exact isometries',
     'Translating or rotating a geometry, or mirroring it about a line, moves every vertex and every bar by exactly that motion, keeps areas, holes, materials, densities, bar areas, diameters, groups and names, and a motion followed by its inverse restores the geometry. What is left out is zero (components of a translation, the angle). Anything but a line is refused as an axis. A compound moves as the union of its parts. Rotation is about the given point (the origin by default), counter-clockwise, in radians or degrees as asked.',
     ['inputs', 'histories'], 'All geometries (surfaces with holes, bars, compounds), all sequences of translations, rotations and mirrors.',
     'Tests move single rectangles by single motions; sequences, bars in compounds and attributes carried along are not covered.',
     [G + '_geometry.py'], [('translate, rotate', G + '_geometry.py')],
     tech='TLA+ lattice model of geometries with motions as actions; behaviours replayed on the library and random histories trace-validated with TLC', note='1e-9 on every coordinate.')
prop('P10', 'Adding and subtracting geometries is exact area algebra',
     'Adding geometries gives a compound with the parts of both and the sum of their areas, whatever the order and nesting. Subtracting removes exactly the overlapping area from the surfaces, keeps materials and, for compounds, the bars, and never changes the operands. A compound knows whether it is reinforced concrete from its parts alone. Geometries are made of shapes, materials and lists that fit together; anything else is refused with a TypeError or ValueError.',
     ['inputs', 'histories'], 'All sequences of additions and subtractions on a lattice of rectangles with holes and bars, nested compounds.',
     'Tests add and subtract a few fixed rectangles; sequences of operations are not covered.',
     [G + '_geometry.py'], [('__add__, __sub__, CompoundGeometry', G + '_geometry.py')],
     tech='TLA+ model of surfaces as sets of lattice cells; behaviours of the model replayed on the library and compared cell by cell', note='Areas, first moments and cell membership compared at 1e-9.')
prop('P11', 'Splitting by a line partitions a surface',
     'Splitting a surface by one line gives polygons above and below the line whose areas add up to the surface, each on its own side, and splitting by two lines gives exactly the part between them. This holds for any inclination including horizontal and vertical, lines outside the surface, lines through vertices, and surfaces with holes.',
     ['inputs'], 'All polygons with holes, all lines and bands.',
     'Tests split one rectangle by a few lines.',
     [G + '_geometry.py'], [('split, split_two_lines, create_line_point_angle', G + '_geometry.py')],
     tech='TLA+ clipping oracle (exact area and first moments of the half-plane part); recorded splits trace-validated with TLC', note='1e-9 relative to the size of the surface.')
prop('P12', 'Bars are placed where asked, once each',
     'Placing bars along a line or a circle yields exactly the requested number, or the number implied by the requested spacing, with equal distances, starting and ending where asked, and leaving out the ends only when asked. Each bar has the requested diameter, area, material and group, and existing surfaces and bars are unchanged. Requests that make no sense are rejected with a ValueError.',
     ['inputs', 'histories'], 'All numbers, spacings, first and last flags, arcs, radii, geometries; sequences of placements.',
     'Tests place bars in one rectangle with a few counts.',
     [G + '_reinforcement.py', G + '_geometry.py'], [('add_reinforcement, add_reinforcement_line, add_reinforcement_circle', G + '_reinforcement.py')],
     tech='TLA+ specification of placements; recorded histories of placements trace-validated with TLC', note='1e-9 on every position.')
prop('P13', 'Parametric shapes and steel profiles have the geometry of their dimensions',
     'Rectangular and circular geometries have the stated size, centre, area and bars, and impossible dimensions are rejected with a ValueError. Every listed steel profile has an outline with the tabulated dimensions, symmetric where the type of profile is, and an unknown name is rejected. The tabulated-by-computation properties of a profile (area, second moments, section and plastic moduli, principal axes) are those of its outline.',
     ['inputs'], 'All shapes; all names of all families of profiles.',
     'Tests look at a sample of names and compare with tolerances of several percent for part of the properties.',
     [G + '_rectangular.py', G + '_circular.py', G + 'profiles/_base_profile.py', G + 'profiles/_common_functions.py'] + [G + 'profiles/%s.py' % f for f in ('_ipe', '_he', '_ub', '_upn', '_l', '_w')],
     [('RectangularGeometry', G + '_rectangular.py'), ('CircularGeometry', G + '_circular.py'), ('BaseProfile', G + 'profiles/_base_profile.py')],
     tech='TLA+ Green-theorem oracle over the recorded outlines; all profiles enumerated and trace-validated with TLC', note='1e-6 on computed properties, with the documented discretisation of the fillets.')
prop('P14', 'Integrators return the stress resultants of a section and their derivative',
     'For any strain plane the polynomial integrator returns the exact axial force and bending moments of the section, and the fibre integrator the sum over a mesh that covers the section exactly with fibres no larger than the mesh size. The tangent stiffness returned is the derivative of these forces with respect to the strain plane. Holes, materials of different parts, and bars (with displaced concrete as modelled) are accounted for once each. Fibre sizes outside (0, 1] and unknown kinds of integrals are refused with a ValueError.',
     ['inputs', 'configurations'], 'All polygons with holes, materials, bars, strain planes, both integrators, all mesh sizes.',
     'Tests integrate a few rectangular sections and compare the integrators with each other within percents.',
     [S + 'section_integrators/_marin_integrator.py', S + 'section_integrators/_fiber_integrator.py', S + 'section_integrators/_factory.py', 'structuralcodes/core/_marin_integration.py'],
     [('MarinIntegrator', S + 'section_integrators/_marin_integrator.py'), ('FiberIntegrator', S + 'section_integrators/_fiber_integrator.py'), ('marin_integration', 'structuralcodes/core/_marin_integration.py')],
     tech='TLA+ integration oracle (Gauss quadrature over the pieces of the clipped polygon); recorded integrations trace-validated with TLC', note='1e-6 for the exact integrator; fibre results against the recorded mesh exactly and the mesh against the polygon.')
prop('P15', 'Gross properties of a section are those of its parts',
     'Areas, perimeter, mass, first moments, centroid, second moments (about the origin, the centroid and the principal axes) and rigidities of a section equal the integrals over its surfaces and bars. Bars count as documented, surfaces are weighted as documented, and disjoint or hollow sections are handled. Translating the section changes only what depends on the origin, according to the parallel axis theorem. Properties compare as close exactly when every one of them is within the tolerance.',
     ['inputs'], 'All sections made of polygons with holes, several materials and bars, anywhere in the plane.',
     'Tests compare a few rectangles with hand calculations.',
     [S + '_generic.py', 'structuralcodes/core/_section_results.py'], [('_calculate_gross_section_properties', S + '_generic.py')],
     tech='TLA+ polygon integrals (Green) as oracle; recorded properties trace-validated with TLC', note='1e-8 relative.')
prop('P16', 'Bending strength is in equilibrium and at the ultimate limit state',
     'The bending strength for a given inclination of the neutral axis and axial force is the resultant of a strain plane with that inclination whose axial force is the given one and in which some point is exactly at its ultimate strain and none is beyond. An axial force that the section cannot carry is rejected with a ValueError. Moving or rotating the section moves or rotates the strength with it. The searches for a balanced plane, for a plane about a pivot and for a plane of a given curvature, asked directly, give planes with these properties for the geometry they are given.',
     ['inputs', 'configurations'], 'All sections, inclinations of the neutral axis, axial forces between the limits and beyond, both integrators.',
     'Tests check a few sections at a few angles and compare the moment with one reference.',
     [S + '_generic.py'], [('calculate_bending_strength, find_equilibrium_fixed_pivot, check_axial_load', S + '_generic.py')],
     tech='TLA+ definition of equilibrium and of the ultimate state as judgement of recorded results, with TLC', note='Equilibrium, pivot and inclination are judged from the returned strain plane with an independent integration in TLA+.')
prop('P17', 'Every point of a moment-curvature relation is in equilibrium',
     'Each returned curvature has a strain plane with that curvature and the asked inclination, its axial force is the given one, and its moments are the resultants of that strain plane. The curvatures are the given ones, or run from zero through first yield to the ultimate curvature with the requested number of points. Unreachable axial forces are rejected with a ValueError.',
     ['inputs', 'configurations'], 'All sections, angles, axial forces, numbers of points, explicit curvatures, both integrators.',
     'Tests check final values of a few relations.',
     [S + '_generic.py'], [('calculate_moment_curvature, calculate_yield_strain, find_equilibrium_fixed_curvature', S + '_generic.py')],
     tech='TLA+ judgement of equilibrium of every recorded point, with TLC', note='Independent integration in TLA+ of every point.')
prop('P18', 'Interaction domains consist of ultimate states of the section',
     'Every point of an NM, NMM or MM domain is the resultant of its strain plane, in which some point of the section is at an ultimate strain (or yield strain, when that is asked for) and none is beyond. The domains have the requested numbers of points, the requested pivot fields in order and the requested angles, and fields are numbered as documented. Points of a MM domain are in equilibrium with the given axial force. The columns of forces and strains can be read by name.',
     ['inputs', 'configurations'], 'All sections, angles, axial forces, types and numbers of fields and points, both integrators.',
     'Tests check shapes of arrays and a few extreme values.',
     [S + '_generic.py'], [('calculate_nm_interaction_domain, calculate_nmm_interaction_domain, calculate_mm_interaction_domain, _compute_ultimate_strain_profiles', S + '_generic.py')],
     tech='TLA+ definition of the pivot fields and an independent integration as oracle; recorded domains trace-validated with TLC', note='Every point judged.')
prop('P19', 'A strain profile found for given loads reproduces the loads',
     'The strain plane returned for an axial force and two bending moments gives these forces back when integrated. This holds for the initial and the updated stiffness alike. If the iteration does not converge within the allowed number of steps, an error is raised instead of returning a wrong strain plane; loads that leave every part elastic are always found.',
     ['inputs', 'configurations'], 'All sections, load combinations inside and outside the domain, initial and updated stiffness, tolerances, both integrators.',
     'Tests solve a few load cases of one section.',
     [S + '_generic.py'], [('calculate_strain_profile', S + '_generic.py')],
     tech='TLA+ judgement of recorded solutions with an independent integration, with TLC', note='What is left of the loads would move the strains by less than 30 times the tolerance asked for; whether a nonlinear search converges is judged only for loads that keep all parts elastic or well within their compressive branch.')
prop('P20', 'Results do not depend on the history of calculations',
     'The result of any calculation on a section is the same whatever calculations, successful or failed, were done before with the same section, calculator, geometry or materials. Two sections that share geometry or materials do not influence each other. What is kept between calculations (meshes, properties, integration data) is never seen with the orientation of another calculation.',
     ['histories'], 'All sequences of calculations on shared sections, including failing ones, both integrators.',
     'Each test uses a fresh section and asks one or two questions.',
     [S + '_generic.py', S + 'section_integrators/_fiber_integrator.py', S + 'section_integrators/_marin_integrator.py'],
     [('integration data kept by the calculator', S + '_generic.py'), ('n_min, n_max, gross properties kept', S + '_generic.py')],
     [('integration_data, _n_min, _n_max, _gross_properties', 'kept between calculations', S + '_generic.py')],
     'TLA+ state machine of the calculator (what is cached, in which orientation), explored completely by TLC; its behaviours replayed on the library and compared with fresh sections', 'Exact for the polynomial integrator; same-mesh exact for the fibre integrator.')
prop('P21', 'Cracked section properties are those of the cracked section',
     'The effective (cracked) second moments for positive and negative bending are those of the compressed concrete and all bars with their modular ratios, about the neutral axis of the cracked section. They never exceed the uncracked ones, and sections without reinforced concrete have none. The neutral axis found is in equilibrium under pure bending without tension in the concrete.',
     ['inputs'], 'All reinforced concrete sections, signs and inclinations of bending.',
     'Tests compare a few rectangular sections.',
     [S + '_rc_utils.py'], [('calculate_elastic_cracked_properties', S + '_rc_utils.py')],
     tech='TLA+ integration oracle of the cracked section; recorded properties trace-validated with TLC', note='Neutral axis and second moments recomputed in TLA+.')


def formulas(id, title, statement, files, mech, why='Tests tabulate a few values per function, usually away from the limits between the branches.'):
    prop(id, title, statement, ['inputs'], 'All inputs of all exported functions of this part, in particular on both sides of every limit of validity and change of branch; scalars and arrays; all spellings of classes.',
         why, files, mech, tech='TLA+ transcription of the clauses; recorded calls trace-validated with TLC', note='Values compared at 1e-9, errors by kind; sampled inputs with all break points.')


formulas('P22', 'EN 1992-1-1:2004 material properties follow the code of practice',
         'Every strength, strain and stiffness parameter of concrete and reinforcement according to EN 1992-1-1:2004, at 28 days and at any age, equals the value of the formulas and tables of the code for every admissible input. On both sides of the limits between formulas (strength classes, ages) the right branch is used. Inadmissible inputs are rejected with a ValueError.',
         [C + 'ec2_2004/_concrete_material_properties.py', C + 'ec2_2004/_reinforcement_material_properties.py'], [('one function per formula', C + 'ec2_2004/_concrete_material_properties.py')])
formulas('P23', 'EN 1992-1-1:2004 creep and shrinkage follow the code of practice',
         'Creep coefficients and shrinkage strains according to EN 1992-1-1:2004, and every intermediate coefficient, equal the values of the formulas of the code for every admissible age, humidity, size, strength and cement class. Arrays of times give the values of the single times. Inadmissible inputs are rejected with a ValueError where documented.',
         [C + 'ec2_2004/_concrete_creep_and_shrinkage.py', C + 'ec2_2004/_cracking_restraint_imposed_deformations.py'], [('one function per formula', C + 'ec2_2004/_concrete_creep_and_shrinkage.py')])
formulas('P24', 'EN 1992-1-1:2004 shear resistances follow the code of practice',
         'Shear resistances with and without reinforcement, the strut resistance, required and maximum shear reinforcement according to EN 1992-1-1:2004 equal the values of the formulas of the code. The effect of axial stress changes between its branches exactly at the limits of the code. Strut angles outside the admissible range and excessive compression are rejected with a ValueError.',
         [C + 'ec2_2004/shear.py'], [('VRdc, VRds, VRdmax, ...', C + 'ec2_2004/shear.py')])
formulas('P25', 'EN 1992-1-1:2004 crack control follows the code of practice',
         'Minimum reinforcement, crack widths, crack spacings and all their coefficients according to EN 1992-1-1:2004 equal the values of the formulas and tables of the code, with linear interpolation in the tables. Classes and load combinations are recognised regardless of case and surrounding blanks. Inadmissible inputs are rejected with a ValueError.',
         [C + 'ec2_2004/_section_7_3_crack_control.py'], [('w_max, As_min, ..., wk', C + 'ec2_2004/_section_7_3_crack_control.py')])
formulas('P26', 'EN 1992-1-1:2023 material properties follow the code of practice',
         'Every strength, strain, stiffness, creep and shrinkage parameter of concrete and reinforcement according to EN 1992-1-1:2023 equals the value of the formulas and tables of the code for every admissible input. On both sides of the limits between formulas the right branch is used. Inadmissible inputs and unknown classes are rejected with a ValueError.',
         [C + 'ec2_2023/_section5_materials.py'], [('one function per formula', C + 'ec2_2023/_section5_materials.py')])
formulas('P27', 'EN 1992-1-1:2023 serviceability follows the code of practice',
         'Effective modulus, minimum reinforcement, crack widths, crack spacings, deflections and time coefficients according to EN 1992-1-1:2023 equal the values of the formulas of the code. Limits such as the minimum mean strain and the bounds of the coefficients are applied as in the code. Inadmissible inputs are rejected with a ValueError where documented.',
         [C + 'ec2_2023/_section9_sls.py', C + 'ec2_2023/_annexB_time_dependent.py'], [('Ec_eff, ..., delta_simpl', C + 'ec2_2023/_section9_sls.py')])
formulas('P28', 'Model Code 2010 material properties follow the code of practice',
         'Every strength, strain, stiffness and fracture parameter of concrete and reinforcement according to Model Code 2010 equals the value of the formulas and tables of the code for every admissible input. Table values are interpolated as documented between the strength classes. Inadmissible inputs are rejected with a ValueError.',
         [C + 'mc2010/_concrete_material_properties.py', C + 'mc2010/_reinforcement_material_properties.py'], [('one function per formula', C + 'mc2010/_concrete_material_properties.py')])
formulas('P29', 'Model Code 2010 creep and shrinkage follow the code of practice',
         'Creep and shrinkage functions of Model Code 2010, basic and drying, at any time, temperature, humidity and for all cement classes and aggregates, equal the values of the formulas of the code. Arrays of times give the values of the single times. Inputs outside the stated ranges are rejected with a ValueError or reported with a warning, as documented.',
         [C + 'mc2010/_concrete_creep_and_shrinkage.py'], [('one function per formula', C + 'mc2010/_concrete_creep_and_shrinkage.py')])
formulas('P30', 'Model Code 2010 resistances and interfaces follow the code of practice',
         'Shear resistances at every level of approximation, torsional and punching resistances, interface shear and bond-slip relations of Model Code 2010 equal the values of the formulas of the code. The level of approximation and the type of element selected are the ones asked for, and limits on angles, factors and stresses are applied as in the code. Inadmissible inputs are rejected with a ValueError or reported with a warning, as documented.',
         [C + 'mc2010/' + f for f in ('_concrete_shear.py', '_concrete_torsion.py', '_concrete_punching.py', '_concrete_interface_different_casting_times.py', '_interface_concrete_steel_rebar.py')],
         [('v_rd, v_rdc, ...', C + 'mc2010/_concrete_shear.py'), ('punching', C + 'mc2010/_concrete_punching.py'), ('bond', C + 'mc2010/_interface_concrete_steel_rebar.py')])

if __name__ == '__main__':
    import re

    src = open(os.path.join(V, 'harness', 'props.py')).read()
    done = set(re.findall(r"'(P\d\d)':", src))
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'sh setup.sh',
        'checks': [
            {'property': p['id'], 'quick_cmd': f"sh check.sh {p['id']} quick", 'thorough_cmd': f"sh check.sh {p['id']} thorough",
             'technique': p['_tech'], 'level': 'model_checking', 'level_note': p['_note'] + ' Trusts TLC, the IEEE arithmetic of the JVM and the recorder.'}
            for p in P if p['id'] in done
        ],
        'not_applicable': [{'property': p['id'], 'reason': 'not claimed yet: the part of the specification that decides it is not finished'} for p in P if p['id'] not in done],
        'notes': 'Specification in TLA+, checked and bound to the code with TLC; see DESIGN.md.',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in open(os.path.join(V, 'properties.jsonl')):
            jsonschema.validate(json.loads(p), sch)
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError:
        pass
    print(len(P), 'properties,', len(man['checks']), 'checks')
