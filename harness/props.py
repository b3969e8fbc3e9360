"""Registry of the checks."""
import p_ec2_2004
import p_ec2_2023
import p_geometry
import p_history
import p_laws
import p_materials
import p_mc2010
import p_sections
import p_session
import p_world

PROPS = {
    'P01': p_session.p_session,
    'P02': p_materials.p_concrete,
    'P03': p_materials.p_steel,
    'P04': p_laws.p_stress,
    'P05': p_laws.p_tangent,
    'P06': p_laws.p_pieces,
    'P07': p_laws.p_composed,
    'P08': p_world.p_world,
    'P09': p_geometry.p_motion,
    'P10': p_geometry.p_algebra,
    'P11': p_geometry.p_split,
    'P12': p_geometry.p_bars,
    'P13': p_geometry.p_shapes,
    'P14': p_sections.p_integrate,
    'P15': p_sections.p_gross,
    'P16': p_sections.p_strength,
    'P17': p_sections.p_curvature,
    'P18': p_sections.p_domains,
    'P19': p_sections.p_profile,
    'P20': p_history.p_calculator,
    'P21': p_sections.p_cracked,
    'P22': p_ec2_2004.p_materials,
    'P23': p_ec2_2004.p_creep,
    'P24': p_ec2_2004.p_shear,
    'P25': p_ec2_2004.p_crack,
    'P26': p_ec2_2023.p_materials,
    'P27': p_ec2_2023.p_sls,
    'P28': p_mc2010.p_materials,
    'P29': p_mc2010.p_creep,
    'P30': p_mc2010.p_resist,
}
