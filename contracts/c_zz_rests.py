"""properties that rest on every contract: purity (frame obligations) and differentiability (gradient-path obligations)"""
from base import *

TOP = ("mie_coefficients/*", "automatic order/*", "cross_sections/*", "angular_scattering/*", "layers/*", "_miecoef/*", "_miecoef_pena/*", "interp1d/*", "spherical to Cartesian/*",
       "Cartesian to spherical and back/*", "field components/*", "illumination frame/*", "rotation_*", "sph_*", "psi*", "xi*", "chi*", "pena_*", "f_der*", "pi_tau*", "nearfields/*", "vsh*", "Particle/*", "mie_ab*", "StructA*", "_eval_mie*", "setup_pl*", "extract_G*", "combine_*", "plane_wave_exp*")
rests("C12", *TOP, "Mat*", "_load_*")
rests("C13", *TOP, "Mat*")

rests("C19", "Particle/*mie_coeff*", "mie_coefficients/*")
