"""Driver of the contrast-SNR cases (C05 exposure, C06 noise budget)."""
from vf.core import compare
from vf.camera import sensor

EXPOSURE = ["tgt_n", "bkg_n", "int_time", "well_fraction", "dark_current_noise", "self_emission_noise",
            "tgt_n_rate", "bkg_n_rate"]
BUDGET = ["contrast_signal", "dark_current_noise", "self_emission_noise", "signal_noise", "quantization_noise", "total_noise", "snr", "opt_trans", "qe",
          "tgt_n_rate", "bkg_n_rate", "tgt_n", "bkg_n"]
REST = ["other_irradiance", "tgt_FPA_irradiance", "bkg_FPA_irradiance", "weights"]


def driver(fields):
    def run(f, case):
        from pybsm.radiance import photon_detector_SNR
        s = sensor(f)
        q = photon_detector_SNR(s, f.a("radiance_wavelengths"), f.a("target_radiance"), f.a("background_radiance"))
        for name in fields:
            scale = None
            if name in ("contrast_signal", "snr"):
                # difference of two counts: tolerance relative to the counts
                n = max(case["e"]["tgt_n"][0], case["e"]["bkg_n"][0]) / 10**60
                scale = 1e-9 * n if name == "contrast_signal" else 1e-9 * n / (case["e"]["total_noise"][0] / 10**60)
            compare(name, getattr(q, name), case["e"][name], atol=scale)
    return run
