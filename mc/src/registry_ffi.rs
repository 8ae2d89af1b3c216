// @generated by gen/gen_registry.py: every exported C symbol, with the Rust function it stands for.
#![allow(clippy::all)]
use crate::base::*;
use crate::base::{C, R};

#[allow(improper_ctypes)]
extern "C" {
    fn energy_squared(p: R, m: R) -> R;
    fn energy(p: R, m: R) -> R;
    fn fermi_momentum(m: R, mu: R) -> R;
    fn fermi_distribution(en: R, beta: R, mu: R) -> R;
    fn fermi_distribution_zero_temp(en: R, mu: R) -> R;
    fn fermi_distribution_double(en: R, beta: R, mu: R) -> R;
    fn fermi_distribution_double_zero_temp(en: R, mu: R) -> R;
    fn fermi_distribution_zero_chempot(en: R, beta: R) -> R;
    fn bose_distribution(en: R, beta: R, mu: R) -> R;
    fn bose_distribution_zero_chempot(en: R, beta: R) -> R;
    fn statistic_distribution_exponential(en: R, beta: R, mu: R) -> R;
    fn statistic_distribution_exponential_zero_chempot(en: R, beta: R) -> R;
    fn oneloop__ghost__g_sep(s: R, ln_s: R, ln_s_pl_1: R) -> R;
    fn oneloop__ghost__g(s: R) -> R;
    fn oneloop__ghost__g_sep__complex(s: C, ln_s: C, ln_s_pl_1: C) -> C;
    fn oneloop__ghost__g__complex(s: C) -> C;
    fn oneloop__ghost__g_xi_sep(ln_s: R) -> R;
    fn oneloop__ghost__g_xi(s: R) -> R;
    fn oneloop__ghost__g_xi_sep__complex(ln_s: C) -> C;
    fn oneloop__ghost__g_xi__complex(s: C) -> C;
    fn ym__oneloop__ghost__dressing_inv_landau_sep(s: R, ln_s: R, ln_s_pl_1: R, g0: R) -> R;
    fn ym__oneloop__ghost__dressing_inv_landau_sep__complex(s: C, ln_s: C, ln_s_pl_1: C, g0: R) -> C;
    fn ym__oneloop__ghost__dressing_inv_sep(s: R, ln_s: R, ln_s_pl_1: R, g0: R, xi: R) -> R;
    fn ym__oneloop__ghost__dressing_inv_sep__complex(s: C, ln_s: C, ln_s_pl_1: C, g0: R, xi: R) -> C;
    fn oneloop__gluon__f_sep(s: R, ln_s: R, ln_s_pl_1: R) -> R;
    fn oneloop__gluon__f(s: R) -> R;
    fn oneloop__gluon__f_sep__complex(s: C, ln_s: C, ln_s_pl_1: C) -> C;
    fn oneloop__gluon__f__complex(s: C) -> C;
    fn oneloop__gluon__f_xi_sep(s: R, ln_s: R, ln_s_pl_1: R) -> R;
    fn oneloop__gluon__f_xi(s: R) -> R;
    fn oneloop__gluon__f_xi_sep__complex(s: C, ln_s: C, ln_s_pl_1: C) -> C;
    fn oneloop__gluon__f_xi__complex(s: C) -> C;
    fn oneloop__gluon__f_q(s: R) -> R;
    fn oneloop__gluon__f_q__complex(s: C) -> C;
    fn oneloop__gluon__f_q_crossed(s: R) -> R;
    fn oneloop__gluon__f_q_crossed__complex(s: C) -> C;
    fn ym__oneloop__gluon__dressing_inv_landau_sep(s: R, ln_s: R, ln_s_pl_1: R, f0: R) -> R;
    fn ym__oneloop__gluon__dressing_inv_landau_sep__complex(s: C, ln_s: C, ln_s_pl_1: C, f0: R) -> C;
    fn ym__oneloop__gluon__dressing_inv_sep(s: R, ln_s: R, ln_s_pl_1: R, f0: R, xi: R) -> R;
    fn ym__oneloop__gluon__dressing_inv_sep__complex(s: C, ln_s: C, ln_s_pl_1: C, f0: R, xi: R) -> C;
    fn oneloop__tlog(q: R, om: R, p: R, en: R, delta: R) -> C;
    fn oneloop__tlog_same_mass(q: R, om: R, p: R, en: R) -> C;
    fn oneloop__tlog_zero_mass(q: R, om: R, p: R) -> C;
    fn oneloop__tlog_l(q: R, om: R, p: R, en: R, delta: R) -> C;
    fn oneloop__tlog_l_same_mass(q: R, om: R, p: R, en: R) -> C;
    fn oneloop__tlog_l_zero_mass(q: R, om: R, p: R) -> C;
    fn oneloop__tlog_t(q: R, om: R, p: R, en: R, delta: R) -> C;
    fn oneloop__tlog_t_same_mass(q: R, om: R, p: R, en: R) -> C;
    fn oneloop__tlog_t_zero_mass(q: R, om: R, p: R) -> C;
    fn oneloop__j_m_i(q: R, m: R, beta: R) -> R;
    fn oneloop__j_0_i(q: R, beta: R) -> R;
    fn oneloop__j_m_l_i(q: R, m: R, beta: R) -> R;
    fn oneloop__j_0_l_i(q: R, beta: R) -> R;
    fn oneloop__j_m_t_i(q: R, m: R, beta: R) -> R;
    fn oneloop__j_0_t_i(q: R, beta: R) -> R;
    fn oneloop__i_m_m_i(q: R, om: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__i_m_m_i_same_mass(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__i_m_0_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__i_0_0_i(q: R, om: R, p: R, beta: R) -> C;
    fn oneloop__i_m_m_l_i(q: R, om: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__i_m_m_l_i_same_mass(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__i_m_0_l_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__i_0_0_l_i(q: R, om: R, p: R, beta: R) -> C;
    fn oneloop__i_m_m_t_i(q: R, om: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__i_m_m_t_i_same_mass(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__i_m_0_t_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__i_0_0_t_i(q: R, om: R, p: R, beta: R) -> C;
    fn oneloop__d_j_m_i(q: R, m: R, beta: R) -> R;
    fn oneloop__d_j_0_i(q: R, beta: R) -> R;
    fn oneloop__d2_j_m_i(q: R, m: R, beta: R) -> R;
    fn oneloop__d2_j_0_i(q: R, beta: R) -> R;
    fn oneloop__d_j_m_l_i(q: R, m: R, beta: R) -> R;
    fn oneloop__d_j_0_l_i(q: R, beta: R) -> R;
    fn oneloop__d2_j_m_l_i(q: R, m: R, beta: R) -> R;
    fn oneloop__d2_j_0_l_i(q: R, beta: R) -> R;
    fn oneloop__d_j_m_t_i(q: R, m: R, beta: R) -> R;
    fn oneloop__d_j_0_t_i(q: R, beta: R) -> R;
    fn oneloop__d2_j_m_t_i(q: R, m: R, beta: R) -> R;
    fn oneloop__d2_j_0_t_i(q: R, beta: R) -> R;
    fn oneloop__d_i_m_m_i(q: R, om: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__d_i_m_m_i_same_mass(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__d_i_m_0_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__d_i_0_0_i(q: R, om: R, p: R, beta: R) -> C;
    fn oneloop__d_i_m_m_l_i(q: R, om: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__d_i_m_m_l_i_same_mass(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__d_i_m_0_l_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__d_i_0_0_l_i(q: R, om: R, p: R, beta: R) -> C;
    fn oneloop__d_i_m_m_t_i(q: R, om: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__d_i_m_m_t_i_same_mass(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__d_i_m_0_t_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__d_i_0_0_t_i(q: R, om: R, p: R, beta: R) -> C;
    fn oneloop__ghost__self_energy_thermal_part_landau_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__gluon__polarization_glue_l_thermal_part_landau_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__gluon__polarization_glue_t_thermal_part_landau_i(q: R, om: R, p: R, m: R, beta: R) -> C;
    fn oneloop__gluon__polarization_quark_l_thermal_part_landau_i(q: R, om: R, p: R, mq: R, beta: R, mu: R) -> C;
    fn oneloop__gluon__polarization_quark_t_thermal_part_landau_i(q: R, om: R, p: R, mq: R, beta: R, mu: R) -> C;
    fn oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, om: R, p: R, mq: R, mu: R) -> C;
    fn oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, om: R, p: R, mq: R, mu: R) -> C;
    fn oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R;
    fn oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R;
    fn oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R;
    fn oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R;
    fn oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(q: R, om: R, mq: R, beta: R, mu: R) -> R;
    fn oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(q: R, om: R, mq: R, beta: R, mu: R) -> R;
    fn oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, om: R, mq: R, mu: R) -> R;
    fn oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, om: R, mq: R, mu: R) -> R;
    fn oneloop__zero_matsubara__tlog(q: R, p: R, delta: R) -> C;
    fn oneloop__zero_matsubara__tlog_same_mass(q: R, p: R) -> R;
    fn oneloop__zero_matsubara__tlog_zero_mass(q: R, p: R) -> R;
    fn oneloop__zero_matsubara__tlog_t(q: R, p: R, delta: R) -> C;
    fn oneloop__zero_matsubara__tlog_t_same_mass(q: R, p: R) -> R;
    fn oneloop__zero_matsubara__tlog_t_zero_mass(q: R, p: R) -> R;
    fn oneloop__zero_matsubara__i_m_m_i(q: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_matsubara__i_m_m_i_same_mass(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__i_m_0_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__i_0_0_i(q: R, p: R, beta: R) -> R;
    fn oneloop__zero_matsubara__i_m_m_l_i(q: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_matsubara__i_m_m_l_i_same_mass(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__i_m_0_l_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__i_0_0_l_i(q: R, p: R, beta: R) -> R;
    fn oneloop__zero_matsubara__i_m_m_t_i(q: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_matsubara__i_m_m_t_i_same_mass(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__i_m_0_t_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__i_0_0_t_i(q: R, p: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_m_m_i(q: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_matsubara__d_i_m_m_i_same_mass(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_m_0_i(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_0_0_i(q: R, p: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_m_m_l_i(q: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_m_0_l_i(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_0_0_l_i(q: R, p: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_m_m_t_i(q: R, p: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(q: R, p: R, m: R, beta: R) -> R;
    fn oneloop__zero_matsubara__d_i_m_0_t_i(q: R, p: R, m: R, beta: R) -> C;
    fn oneloop__zero_matsubara__d_i_0_0_t_i(q: R, p: R, beta: R) -> R;
    fn oneloop__zero_momentum__i_m_m_i(q: R, om: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_m_i_same_mass(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_0_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_0_0_i(q: R, om: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_m_l_i(q: R, om: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_m_l_i_same_mass(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_0_l_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_0_0_l_i(q: R, om: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_m_t_i(q: R, om: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_m_t_i_same_mass(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_m_0_t_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__i_0_0_t_i(q: R, om: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_m_i(q: R, om: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_m_i_same_mass(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_0_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_0_0_i(q: R, om: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_m_l_i(q: R, om: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_m_l_i_same_mass(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_0_l_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_0_0_l_i(q: R, om: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_m_t_i(q: R, om: R, m1: R, m2: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_m_t_i_same_mass(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_m_0_t_i(q: R, om: R, m: R, beta: R) -> C;
    fn oneloop__zero_momentum__d_i_0_0_t_i(q: R, om: R, beta: R) -> C;
    fn ym__ghost__dressing_inv_landau(s: R, g0: R) -> R;
    fn ym__ghost__dressing_inv_landau__complex(s: C, g0: R) -> C;
    fn ym__ghost__dressing_inv(s: R, g0: R, xi: R) -> R;
    fn ym__ghost__dressing_inv__complex(s: C, g0: R, xi: R) -> C;
    fn ym__ghost__dressing_landau(s: R, g0: R) -> R;
    fn ym__ghost__dressing_landau__complex(s: C, g0: R) -> C;
    fn ym__ghost__dressing(s: R, g0: R, xi: R) -> R;
    fn ym__ghost__dressing__complex(s: C, g0: R, xi: R) -> C;
    fn ym__ghost__propagator_landau(s: R, g0: R) -> R;
    fn ym__ghost__propagator_landau__complex(s: C, g0: R) -> C;
    fn ym__ghost__propagator(s: R, g0: R, xi: R) -> R;
    fn ym__ghost__propagator__complex(s: C, g0: R, xi: R) -> C;
    fn ym__gluon__dressing_inv_landau(s: R, f0: R) -> R;
    fn ym__gluon__dressing_inv_landau__complex(s: C, f0: R) -> C;
    fn ym__gluon__dressing_inv(s: R, f0: R, xi: R) -> R;
    fn ym__gluon__dressing_inv__complex(s: C, f0: R, xi: R) -> C;
    fn ym__gluon__dressing_landau(s: R, f0: R) -> R;
    fn ym__gluon__dressing_landau__complex(s: C, f0: R) -> C;
    fn ym__gluon__dressing(s: R, f0: R, xi: R) -> R;
    fn ym__gluon__dressing__complex(s: C, f0: R, xi: R) -> C;
    fn ym__gluon__propagator_landau(s: R, f0: R) -> R;
    fn ym__gluon__propagator_landau__complex(s: C, f0: R) -> C;
    fn ym__gluon__propagator(s: R, f0: R, xi: R) -> R;
    fn ym__gluon__propagator__complex(s: C, f0: R, xi: R) -> C;
    fn qcd__ghost__dressing_inv_landau(s: R, g0: R) -> R;
    fn qcd__ghost__dressing_inv_landau__complex(s: C, g0: R) -> C;
    fn qcd__ghost__dressing_inv(s: R, g0: R, xi: R) -> R;
    fn qcd__ghost__dressing_inv__complex(s: C, g0: R, xi: R) -> C;
    fn qcd__ghost__dressing_landau(s: R, g0: R) -> R;
    fn qcd__ghost__dressing_landau__complex(s: C, g0: R) -> C;
    fn qcd__ghost__dressing(s: R, g0: R, xi: R) -> R;
    fn qcd__ghost__dressing__complex(s: C, g0: R, xi: R) -> C;
    fn qcd__gluon__dressing_inv_landau(s: R, mq: R, f0: R) -> R;
    fn qcd__gluon__dressing_inv_landau__complex(s: C, mq: R, f0: R) -> C;
    fn qcd__gluon__dressing_inv(s: R, mq: R, f0: R, xi: R) -> R;
    fn qcd__gluon__dressing_inv__complex(s: C, mq: R, f0: R, xi: R) -> C;
    fn qcd__gluon__dressing_landau(s: R, mq: R, f0: R) -> R;
    fn qcd__gluon__dressing_landau__complex(s: C, mq: R, f0: R) -> C;
    fn qcd__gluon__dressing(s: R, mq: R, f0: R, xi: R) -> R;
    fn qcd__gluon__dressing__complex(s: C, mq: R, f0: R, xi: R) -> C;
    fn qcd__gluon__propagator_landau(s: R, mq: R, f0: R) -> R;
    fn qcd__gluon__propagator_landau__complex(s: C, mq: R, f0: R) -> C;
    fn qcd__gluon__propagator(s: R, mq: R, f0: R, xi: R) -> R;
    fn qcd__gluon__propagator__complex(s: C, mq: R, f0: R, xi: R) -> C;
    fn qcd__gluon__dressing_crossed_inv_landau(s: R, mq: R, f0: R) -> R;
    fn qcd__gluon__dressing_crossed_inv_landau__complex(s: C, mq: R, f0: R) -> C;
    fn qcd__gluon__dressing_crossed_inv(s: R, mq: R, f0: R, xi: R) -> R;
    fn qcd__gluon__dressing_crossed_inv__complex(s: C, mq: R, f0: R, xi: R) -> C;
    fn qcd__gluon__dressing_crossed_landau(s: R, mq: R, f0: R) -> R;
    fn qcd__gluon__dressing_crossed_landau__complex(s: C, mq: R, f0: R) -> C;
    fn qcd__gluon__dressing_crossed(s: R, mq: R, f0: R, xi: R) -> R;
    fn qcd__gluon__dressing_crossed__complex(s: C, mq: R, f0: R, xi: R) -> C;
    fn qcd__gluon__propagator_crossed_landau(s: R, mq: R, f0: R) -> R;
    fn qcd__gluon__propagator_crossed_landau__complex(s: C, mq: R, f0: R) -> C;
    fn qcd__gluon__propagator_crossed(s: R, mq: R, f0: R, xi: R) -> R;
    fn qcd__gluon__propagator_crossed__complex(s: C, mq: R, f0: R, xi: R) -> C;
}

pub static SYMS: &[X] = &[
  X { sym: "energy_squared", f: 0, mask: 0, real: true, call: |a| unsafe { energy_squared(a.v[2].re, a.v[3].re) }.into() },
  X { sym: "energy", f: 1, mask: 0, real: true, call: |a| unsafe { energy(a.v[2].re, a.v[3].re) }.into() },
  X { sym: "fermi_momentum", f: 2, mask: 0, real: true, call: |a| unsafe { fermi_momentum(a.v[3].re, a.v[8].re) }.into() },
  X { sym: "fermi_distribution", f: 3, mask: 0, real: true, call: |a| unsafe { fermi_distribution(a.v[13].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "fermi_distribution_zero_temp", f: 4, mask: 0, real: true, call: |a| unsafe { fermi_distribution_zero_temp(a.v[13].re, a.v[8].re) }.into() },
  X { sym: "fermi_distribution_double", f: 5, mask: 0, real: true, call: |a| unsafe { fermi_distribution_double(a.v[13].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "fermi_distribution_double_zero_temp", f: 6, mask: 0, real: true, call: |a| unsafe { fermi_distribution_double_zero_temp(a.v[13].re, a.v[8].re) }.into() },
  X { sym: "fermi_distribution_zero_chempot", f: 7, mask: 0, real: true, call: |a| unsafe { fermi_distribution_zero_chempot(a.v[13].re, a.v[7].re) }.into() },
  X { sym: "bose_distribution", f: 8, mask: 0, real: true, call: |a| unsafe { bose_distribution(a.v[13].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "bose_distribution_zero_chempot", f: 9, mask: 0, real: true, call: |a| unsafe { bose_distribution_zero_chempot(a.v[13].re, a.v[7].re) }.into() },
  X { sym: "statistic_distribution_exponential", f: 10, mask: 0, real: true, call: |a| unsafe { statistic_distribution_exponential(a.v[13].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "statistic_distribution_exponential_zero_chempot", f: 11, mask: 0, real: true, call: |a| unsafe { statistic_distribution_exponential_zero_chempot(a.v[13].re, a.v[7].re) }.into() },
  X { sym: "oneloop__ghost__g_sep", f: 12, mask: 0, real: true, call: |a| unsafe { oneloop__ghost__g_sep(a.v[12].re, a.v[15].re, a.v[16].re) }.into() },
  X { sym: "oneloop__ghost__g", f: 13, mask: 0, real: true, call: |a| unsafe { oneloop__ghost__g(a.v[12].re) }.into() },
  X { sym: "oneloop__ghost__g_sep__complex", f: 12, mask: 1, real: false, call: |a| unsafe { oneloop__ghost__g_sep__complex(a.v[12], a.v[15], a.v[16]) }.into() },
  X { sym: "oneloop__ghost__g__complex", f: 13, mask: 1, real: false, call: |a| unsafe { oneloop__ghost__g__complex(a.v[12]) }.into() },
  X { sym: "oneloop__ghost__g_xi_sep", f: 14, mask: 0, real: true, call: |a| unsafe { oneloop__ghost__g_xi_sep(a.v[15].re) }.into() },
  X { sym: "oneloop__ghost__g_xi", f: 15, mask: 0, real: true, call: |a| unsafe { oneloop__ghost__g_xi(a.v[12].re) }.into() },
  X { sym: "oneloop__ghost__g_xi_sep__complex", f: 14, mask: 1, real: false, call: |a| unsafe { oneloop__ghost__g_xi_sep__complex(a.v[15]) }.into() },
  X { sym: "oneloop__ghost__g_xi__complex", f: 15, mask: 1, real: false, call: |a| unsafe { oneloop__ghost__g_xi__complex(a.v[12]) }.into() },
  X { sym: "ym__oneloop__ghost__dressing_inv_landau_sep", f: 16, mask: 0, real: true, call: |a| unsafe { ym__oneloop__ghost__dressing_inv_landau_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[10].re) }.into() },
  X { sym: "ym__oneloop__ghost__dressing_inv_landau_sep__complex", f: 16, mask: 1, real: false, call: |a| unsafe { ym__oneloop__ghost__dressing_inv_landau_sep__complex(a.v[12], a.v[15], a.v[16], a.v[10].re) }.into() },
  X { sym: "ym__oneloop__ghost__dressing_inv_sep", f: 17, mask: 0, real: true, call: |a| unsafe { ym__oneloop__ghost__dressing_inv_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__oneloop__ghost__dressing_inv_sep__complex", f: 17, mask: 1, real: false, call: |a| unsafe { ym__oneloop__ghost__dressing_inv_sep__complex(a.v[12], a.v[15], a.v[16], a.v[10].re, a.v[11].re) }.into() },
  X { sym: "oneloop__gluon__f_sep", f: 18, mask: 0, real: true, call: |a| unsafe { oneloop__gluon__f_sep(a.v[12].re, a.v[15].re, a.v[16].re) }.into() },
  X { sym: "oneloop__gluon__f", f: 19, mask: 0, real: true, call: |a| unsafe { oneloop__gluon__f(a.v[12].re) }.into() },
  X { sym: "oneloop__gluon__f_sep__complex", f: 18, mask: 1, real: false, call: |a| unsafe { oneloop__gluon__f_sep__complex(a.v[12], a.v[15], a.v[16]) }.into() },
  X { sym: "oneloop__gluon__f__complex", f: 19, mask: 1, real: false, call: |a| unsafe { oneloop__gluon__f__complex(a.v[12]) }.into() },
  X { sym: "oneloop__gluon__f_xi_sep", f: 20, mask: 0, real: true, call: |a| unsafe { oneloop__gluon__f_xi_sep(a.v[12].re, a.v[15].re, a.v[16].re) }.into() },
  X { sym: "oneloop__gluon__f_xi", f: 21, mask: 0, real: true, call: |a| unsafe { oneloop__gluon__f_xi(a.v[12].re) }.into() },
  X { sym: "oneloop__gluon__f_xi_sep__complex", f: 20, mask: 1, real: false, call: |a| unsafe { oneloop__gluon__f_xi_sep__complex(a.v[12], a.v[15], a.v[16]) }.into() },
  X { sym: "oneloop__gluon__f_xi__complex", f: 21, mask: 1, real: false, call: |a| unsafe { oneloop__gluon__f_xi__complex(a.v[12]) }.into() },
  X { sym: "oneloop__gluon__f_q", f: 22, mask: 0, real: true, call: |a| unsafe { oneloop__gluon__f_q(a.v[12].re) }.into() },
  X { sym: "oneloop__gluon__f_q__complex", f: 22, mask: 1, real: false, call: |a| unsafe { oneloop__gluon__f_q__complex(a.v[12]) }.into() },
  X { sym: "oneloop__gluon__f_q_crossed", f: 23, mask: 0, real: true, call: |a| unsafe { oneloop__gluon__f_q_crossed(a.v[12].re) }.into() },
  X { sym: "oneloop__gluon__f_q_crossed__complex", f: 23, mask: 1, real: false, call: |a| unsafe { oneloop__gluon__f_q_crossed__complex(a.v[12]) }.into() },
  X { sym: "ym__oneloop__gluon__dressing_inv_landau_sep", f: 24, mask: 0, real: true, call: |a| unsafe { ym__oneloop__gluon__dressing_inv_landau_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[9].re) }.into() },
  X { sym: "ym__oneloop__gluon__dressing_inv_landau_sep__complex", f: 24, mask: 1, real: false, call: |a| unsafe { ym__oneloop__gluon__dressing_inv_landau_sep__complex(a.v[12], a.v[15], a.v[16], a.v[9].re) }.into() },
  X { sym: "ym__oneloop__gluon__dressing_inv_sep", f: 25, mask: 0, real: true, call: |a| unsafe { ym__oneloop__gluon__dressing_inv_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "ym__oneloop__gluon__dressing_inv_sep__complex", f: 25, mask: 1, real: false, call: |a| unsafe { ym__oneloop__gluon__dressing_inv_sep__complex(a.v[12], a.v[15], a.v[16], a.v[9].re, a.v[11].re) }.into() },
  X { sym: "oneloop__tlog", f: 26, mask: 0, real: false, call: |a| unsafe { oneloop__tlog(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14].re) }.into() },
  X { sym: "oneloop__tlog_same_mass", f: 27, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re) }.into() },
  X { sym: "oneloop__tlog_zero_mass", f: 28, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_zero_mass(a.v[0].re, a.v[1].re, a.v[2].re) }.into() },
  X { sym: "oneloop__tlog_l", f: 29, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_l(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14].re) }.into() },
  X { sym: "oneloop__tlog_l_same_mass", f: 30, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_l_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re) }.into() },
  X { sym: "oneloop__tlog_l_zero_mass", f: 31, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_l_zero_mass(a.v[0].re, a.v[1].re, a.v[2].re) }.into() },
  X { sym: "oneloop__tlog_t", f: 32, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_t(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14].re) }.into() },
  X { sym: "oneloop__tlog_t_same_mass", f: 33, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_t_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re) }.into() },
  X { sym: "oneloop__tlog_t_zero_mass", f: 34, mask: 0, real: false, call: |a| unsafe { oneloop__tlog_t_zero_mass(a.v[0].re, a.v[1].re, a.v[2].re) }.into() },
  X { sym: "oneloop__j_m_i", f: 35, mask: 0, real: true, call: |a| unsafe { oneloop__j_m_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__j_0_i", f: 36, mask: 0, real: true, call: |a| unsafe { oneloop__j_0_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__j_m_l_i", f: 37, mask: 0, real: true, call: |a| unsafe { oneloop__j_m_l_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__j_0_l_i", f: 38, mask: 0, real: true, call: |a| unsafe { oneloop__j_0_l_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__j_m_t_i", f: 39, mask: 0, real: true, call: |a| unsafe { oneloop__j_m_t_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__j_0_t_i", f: 40, mask: 0, real: true, call: |a| unsafe { oneloop__j_0_t_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_m_i", f: 41, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_m_i_same_mass", f: 42, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_0_i", f: 43, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_0_0_i", f: 44, mask: 0, real: false, call: |a| unsafe { oneloop__i_0_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_m_l_i", f: 45, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_m_l_i_same_mass", f: 46, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_0_l_i", f: 47, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_0_0_l_i", f: 48, mask: 0, real: false, call: |a| unsafe { oneloop__i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_m_t_i", f: 49, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_m_t_i_same_mass", f: 50, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_m_0_t_i", f: 51, mask: 0, real: false, call: |a| unsafe { oneloop__i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__i_0_0_t_i", f: 52, mask: 0, real: false, call: |a| unsafe { oneloop__i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_j_m_i", f: 53, mask: 0, real: true, call: |a| unsafe { oneloop__d_j_m_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_j_0_i", f: 54, mask: 0, real: true, call: |a| unsafe { oneloop__d_j_0_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d2_j_m_i", f: 55, mask: 0, real: true, call: |a| unsafe { oneloop__d2_j_m_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d2_j_0_i", f: 56, mask: 0, real: true, call: |a| unsafe { oneloop__d2_j_0_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_j_m_l_i", f: 57, mask: 0, real: true, call: |a| unsafe { oneloop__d_j_m_l_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_j_0_l_i", f: 58, mask: 0, real: true, call: |a| unsafe { oneloop__d_j_0_l_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d2_j_m_l_i", f: 59, mask: 0, real: true, call: |a| unsafe { oneloop__d2_j_m_l_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d2_j_0_l_i", f: 60, mask: 0, real: true, call: |a| unsafe { oneloop__d2_j_0_l_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_j_m_t_i", f: 61, mask: 0, real: true, call: |a| unsafe { oneloop__d_j_m_t_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_j_0_t_i", f: 62, mask: 0, real: true, call: |a| unsafe { oneloop__d_j_0_t_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d2_j_m_t_i", f: 63, mask: 0, real: true, call: |a| unsafe { oneloop__d2_j_m_t_i(a.v[0].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d2_j_0_t_i", f: 64, mask: 0, real: true, call: |a| unsafe { oneloop__d2_j_0_t_i(a.v[0].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_m_i", f: 65, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_m_i_same_mass", f: 66, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_0_i", f: 67, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_0_0_i", f: 68, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_0_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_m_l_i", f: 69, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_m_l_i_same_mass", f: 70, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_0_l_i", f: 71, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_0_0_l_i", f: 72, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_m_t_i", f: 73, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_m_t_i_same_mass", f: 74, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_m_0_t_i", f: 76, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__d_i_0_0_t_i", f: 77, mask: 0, real: false, call: |a| unsafe { oneloop__d_i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__ghost__self_energy_thermal_part_landau_i", f: 78, mask: 0, real: false, call: |a| unsafe { oneloop__ghost__self_energy_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i", f: 81, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i", f: 84, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__gluon__polarization_glue_l_thermal_part_landau_i", f: 87, mask: 0, real: false, call: |a| unsafe { oneloop__gluon__polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__gluon__polarization_glue_t_thermal_part_landau_i", f: 88, mask: 0, real: false, call: |a| unsafe { oneloop__gluon__polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__gluon__polarization_quark_l_thermal_part_landau_i", f: 89, mask: 0, real: false, call: |a| unsafe { oneloop__gluon__polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "oneloop__gluon__polarization_quark_t_thermal_part_landau_i", f: 90, mask: 0, real: false, call: |a| unsafe { oneloop__gluon__polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", f: 91, mask: 0, real: false, call: |a| unsafe { oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re) }.into() },
  X { sym: "oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", f: 92, mask: 0, real: false, call: |a| unsafe { oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i", f: 105, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i", f: 106, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i", f: 107, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i", f: 108, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", f: 109, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", f: 110, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i", f: 123, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i", f: 124, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i", f: 125, mask: 0, real: true, call: |a| unsafe { oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i", f: 126, mask: 0, real: true, call: |a| unsafe { oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i", f: 127, mask: 0, real: true, call: |a| unsafe { oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i", f: 128, mask: 0, real: true, call: |a| unsafe { oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[8].re) }.into() },
  X { sym: "oneloop__zero_matsubara__tlog", f: 141, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__tlog(a.v[0].re, a.v[2].re, a.v[14].re) }.into() },
  X { sym: "oneloop__zero_matsubara__tlog_same_mass", f: 142, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__tlog_same_mass(a.v[0].re, a.v[2].re) }.into() },
  X { sym: "oneloop__zero_matsubara__tlog_zero_mass", f: 143, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__tlog_zero_mass(a.v[0].re, a.v[2].re) }.into() },
  X { sym: "oneloop__zero_matsubara__tlog_t", f: 144, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__tlog_t(a.v[0].re, a.v[2].re, a.v[14].re) }.into() },
  X { sym: "oneloop__zero_matsubara__tlog_t_same_mass", f: 145, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__tlog_t_same_mass(a.v[0].re, a.v[2].re) }.into() },
  X { sym: "oneloop__zero_matsubara__tlog_t_zero_mass", f: 146, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__tlog_t_zero_mass(a.v[0].re, a.v[2].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_m_i", f: 147, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__i_m_m_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_m_i_same_mass", f: 148, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__i_m_m_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_0_i", f: 149, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__i_m_0_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_0_0_i", f: 150, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__i_0_0_i(a.v[0].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_m_l_i", f: 151, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_m_l_i_same_mass", f: 152, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__i_m_m_l_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_0_l_i", f: 153, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__i_m_0_l_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_0_0_l_i", f: 154, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__i_0_0_l_i(a.v[0].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_m_t_i", f: 155, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_m_t_i_same_mass", f: 156, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__i_m_m_t_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_m_0_t_i", f: 157, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__i_m_0_t_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__i_0_0_t_i", f: 158, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__i_0_0_t_i(a.v[0].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_m_i", f: 159, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_m_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_m_i_same_mass", f: 160, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_m_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_0_i", f: 161, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_0_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_0_0_i", f: 162, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_0_0_i(a.v[0].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_m_l_i", f: 163, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_m_l_i_same_mass", f: 164, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_0_l_i", f: 165, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_0_l_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_0_0_l_i", f: 166, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_0_0_l_i(a.v[0].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_m_t_i", f: 167, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_m_t_i_same_mass", f: 168, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_m_0_t_i", f: 170, mask: 0, real: false, call: |a| unsafe { oneloop__zero_matsubara__d_i_m_0_t_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_matsubara__d_i_0_0_t_i", f: 171, mask: 0, real: true, call: |a| unsafe { oneloop__zero_matsubara__d_i_0_0_t_i(a.v[0].re, a.v[2].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_m_i", f: 172, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_m_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_m_i_same_mass", f: 173, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_0_i", f: 174, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_0_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_0_0_i", f: 175, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_0_0_i(a.v[0].re, a.v[1].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_m_l_i", f: 176, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_m_l_i_same_mass", f: 177, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_0_l_i", f: 178, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_0_0_l_i", f: 179, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_m_t_i", f: 180, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_m_t_i_same_mass", f: 181, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_m_0_t_i", f: 182, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__i_0_0_t_i", f: 183, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_m_i", f: 184, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_m_i_same_mass", f: 185, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_0_i", f: 186, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_0_0_i", f: 187, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_0_0_i(a.v[0].re, a.v[1].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_m_l_i", f: 188, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_m_l_i_same_mass", f: 189, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_0_l_i", f: 190, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_0_0_l_i", f: 191, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_m_t_i", f: 192, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_m_t_i_same_mass", f: 193, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_m_0_t_i", f: 194, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re) }.into() },
  X { sym: "oneloop__zero_momentum__d_i_0_0_t_i", f: 195, mask: 0, real: false, call: |a| unsafe { oneloop__zero_momentum__d_i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[7].re) }.into() },
  X { sym: "ym__ghost__dressing_inv_landau", f: 196, mask: 0, real: true, call: |a| unsafe { ym__ghost__dressing_inv_landau(a.v[12].re, a.v[10].re) }.into() },
  X { sym: "ym__ghost__dressing_inv_landau__complex", f: 196, mask: 1, real: false, call: |a| unsafe { ym__ghost__dressing_inv_landau__complex(a.v[12], a.v[10].re) }.into() },
  X { sym: "ym__ghost__dressing_inv", f: 197, mask: 0, real: true, call: |a| unsafe { ym__ghost__dressing_inv(a.v[12].re, a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__ghost__dressing_inv__complex", f: 197, mask: 1, real: false, call: |a| unsafe { ym__ghost__dressing_inv__complex(a.v[12], a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__ghost__dressing_landau", f: 198, mask: 0, real: true, call: |a| unsafe { ym__ghost__dressing_landau(a.v[12].re, a.v[10].re) }.into() },
  X { sym: "ym__ghost__dressing_landau__complex", f: 198, mask: 1, real: false, call: |a| unsafe { ym__ghost__dressing_landau__complex(a.v[12], a.v[10].re) }.into() },
  X { sym: "ym__ghost__dressing", f: 199, mask: 0, real: true, call: |a| unsafe { ym__ghost__dressing(a.v[12].re, a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__ghost__dressing__complex", f: 199, mask: 1, real: false, call: |a| unsafe { ym__ghost__dressing__complex(a.v[12], a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__ghost__propagator_landau", f: 200, mask: 0, real: true, call: |a| unsafe { ym__ghost__propagator_landau(a.v[12].re, a.v[10].re) }.into() },
  X { sym: "ym__ghost__propagator_landau__complex", f: 200, mask: 1, real: false, call: |a| unsafe { ym__ghost__propagator_landau__complex(a.v[12], a.v[10].re) }.into() },
  X { sym: "ym__ghost__propagator", f: 201, mask: 0, real: true, call: |a| unsafe { ym__ghost__propagator(a.v[12].re, a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__ghost__propagator__complex", f: 201, mask: 1, real: false, call: |a| unsafe { ym__ghost__propagator__complex(a.v[12], a.v[10].re, a.v[11].re) }.into() },
  X { sym: "ym__gluon__dressing_inv_landau", f: 202, mask: 0, real: true, call: |a| unsafe { ym__gluon__dressing_inv_landau(a.v[12].re, a.v[9].re) }.into() },
  X { sym: "ym__gluon__dressing_inv_landau__complex", f: 202, mask: 1, real: false, call: |a| unsafe { ym__gluon__dressing_inv_landau__complex(a.v[12], a.v[9].re) }.into() },
  X { sym: "ym__gluon__dressing_inv", f: 203, mask: 0, real: true, call: |a| unsafe { ym__gluon__dressing_inv(a.v[12].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "ym__gluon__dressing_inv__complex", f: 203, mask: 1, real: false, call: |a| unsafe { ym__gluon__dressing_inv__complex(a.v[12], a.v[9].re, a.v[11].re) }.into() },
  X { sym: "ym__gluon__dressing_landau", f: 204, mask: 0, real: true, call: |a| unsafe { ym__gluon__dressing_landau(a.v[12].re, a.v[9].re) }.into() },
  X { sym: "ym__gluon__dressing_landau__complex", f: 204, mask: 1, real: false, call: |a| unsafe { ym__gluon__dressing_landau__complex(a.v[12], a.v[9].re) }.into() },
  X { sym: "ym__gluon__dressing", f: 205, mask: 0, real: true, call: |a| unsafe { ym__gluon__dressing(a.v[12].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "ym__gluon__dressing__complex", f: 205, mask: 1, real: false, call: |a| unsafe { ym__gluon__dressing__complex(a.v[12], a.v[9].re, a.v[11].re) }.into() },
  X { sym: "ym__gluon__propagator_landau", f: 206, mask: 0, real: true, call: |a| unsafe { ym__gluon__propagator_landau(a.v[12].re, a.v[9].re) }.into() },
  X { sym: "ym__gluon__propagator_landau__complex", f: 206, mask: 1, real: false, call: |a| unsafe { ym__gluon__propagator_landau__complex(a.v[12], a.v[9].re) }.into() },
  X { sym: "ym__gluon__propagator", f: 207, mask: 0, real: true, call: |a| unsafe { ym__gluon__propagator(a.v[12].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "ym__gluon__propagator__complex", f: 207, mask: 1, real: false, call: |a| unsafe { ym__gluon__propagator__complex(a.v[12], a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__ghost__dressing_inv_landau", f: 337, mask: 0, real: true, call: |a| unsafe { qcd__ghost__dressing_inv_landau(a.v[12].re, a.v[10].re) }.into() },
  X { sym: "qcd__ghost__dressing_inv_landau__complex", f: 337, mask: 1, real: false, call: |a| unsafe { qcd__ghost__dressing_inv_landau__complex(a.v[12], a.v[10].re) }.into() },
  X { sym: "qcd__ghost__dressing_inv", f: 338, mask: 0, real: true, call: |a| unsafe { qcd__ghost__dressing_inv(a.v[12].re, a.v[10].re, a.v[11].re) }.into() },
  X { sym: "qcd__ghost__dressing_inv__complex", f: 338, mask: 1, real: false, call: |a| unsafe { qcd__ghost__dressing_inv__complex(a.v[12], a.v[10].re, a.v[11].re) }.into() },
  X { sym: "qcd__ghost__dressing_landau", f: 339, mask: 0, real: true, call: |a| unsafe { qcd__ghost__dressing_landau(a.v[12].re, a.v[10].re) }.into() },
  X { sym: "qcd__ghost__dressing_landau__complex", f: 339, mask: 1, real: false, call: |a| unsafe { qcd__ghost__dressing_landau__complex(a.v[12], a.v[10].re) }.into() },
  X { sym: "qcd__ghost__dressing", f: 340, mask: 0, real: true, call: |a| unsafe { qcd__ghost__dressing(a.v[12].re, a.v[10].re, a.v[11].re) }.into() },
  X { sym: "qcd__ghost__dressing__complex", f: 340, mask: 1, real: false, call: |a| unsafe { qcd__ghost__dressing__complex(a.v[12], a.v[10].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_inv_landau", f: 235, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_inv_landau(a.v[12].re, a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_inv_landau__complex", f: 235, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_inv_landau__complex(a.v[12], a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_inv", f: 236, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_inv(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_inv__complex", f: 236, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_inv__complex(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_landau", f: 237, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_landau(a.v[12].re, a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_landau__complex", f: 237, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_landau__complex(a.v[12], a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing", f: 238, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing__complex", f: 238, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing__complex(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__propagator_landau", f: 239, mask: 0, real: true, call: |a| unsafe { qcd__gluon__propagator_landau(a.v[12].re, a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__propagator_landau__complex", f: 239, mask: 1, real: false, call: |a| unsafe { qcd__gluon__propagator_landau__complex(a.v[12], a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__propagator", f: 240, mask: 0, real: true, call: |a| unsafe { qcd__gluon__propagator(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__propagator__complex", f: 240, mask: 1, real: false, call: |a| unsafe { qcd__gluon__propagator__complex(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed_inv_landau", f: 241, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_crossed_inv_landau(a.v[12].re, a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed_inv_landau__complex", f: 241, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_crossed_inv_landau__complex(a.v[12], a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed_inv", f: 242, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_crossed_inv(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed_inv__complex", f: 242, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_crossed_inv__complex(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed_landau", f: 243, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_crossed_landau(a.v[12].re, a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed_landau__complex", f: 243, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_crossed_landau__complex(a.v[12], a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed", f: 244, mask: 0, real: true, call: |a| unsafe { qcd__gluon__dressing_crossed(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__dressing_crossed__complex", f: 244, mask: 1, real: false, call: |a| unsafe { qcd__gluon__dressing_crossed__complex(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__propagator_crossed_landau", f: 245, mask: 0, real: true, call: |a| unsafe { qcd__gluon__propagator_crossed_landau(a.v[12].re, a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__propagator_crossed_landau__complex", f: 245, mask: 1, real: false, call: |a| unsafe { qcd__gluon__propagator_crossed_landau__complex(a.v[12], a.v[6].re, a.v[9].re) }.into() },
  X { sym: "qcd__gluon__propagator_crossed", f: 246, mask: 0, real: true, call: |a| unsafe { qcd__gluon__propagator_crossed(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
  X { sym: "qcd__gluon__propagator_crossed__complex", f: 246, mask: 1, real: false, call: |a| unsafe { qcd__gluon__propagator_crossed__complex(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re) }.into() },
];
