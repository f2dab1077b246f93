"""Real Sensor / Scenario objects from the specification's camera records."""
import numpy as np

from .core import F


def sensor(F_, name="s"):
    from pybsm.simulation import Sensor
    s = Sensor(name, F_.s("D"), F_.s("f"), F_.s("p_x"), F_.a("opt_trans_wavelengths"),
               eta=F_.s("eta"), p_y=F_.s("p_y"), w_x=F_.s("w_x"), w_y=F_.s("w_y"), int_time=F_.s("int_time"),
               dark_current=F_.s("dark_current"), read_noise=F_.s("read_noise"), max_n=F_.s("max_n"),
               max_well_fill=F_.s("max_well_fill"), bit_depth=F_.i("bit_depth"), n_tdi=F_.s("n_tdi"),
               cold_shield_temperature=F_.s("cold_shield_temperature"), optics_temperature=F_.s("optics_temperature"),
               optics_emissivity=F_.s("optics_emissivity"), cold_filter_transmission=F_.s("cold_filter_transmission"),
               cold_filter_temperature=F_.s("cold_filter_temperature"),
               cold_filter_emissivity=F_.s("cold_filter_emissivity"), s_x=F_.s("s_x"), s_y=F_.s("s_y"),
               da_x=F_.s("da_x"), da_y=F_.s("da_y"), pv=F_.s("pv"), pv_wavelength=F_.s("pv_wavelength"))
    s.optics_transmission = F_.a("optics_transmission")
    s.qe_wavelengths = F_.a("qe_wavelengths")
    s.qe = F_.a("qe")
    s.other_noise = F_.ints("other_noise")
    s.L_x = F_.s("L_x")
    s.L_y = F_.s("L_y")
    s.filter_kernel = np.array([F_.s("filter_kernel")]) if len(F_.f["filter_kernel"]) == 1 else F_.ints("filter_kernel", F_.i("kernel_rows"))
    s.frame_stacks = F_.i("frame_stacks")
    return s


def atm(F_):
    return np.stack([F_.a("atm_w")] + [F_.a("atm_%d" % i) for i in range(1, 6)], axis=1)
