// @generated by gen/gen_registry.py: every public function of the library.
#![allow(clippy::all)]
use crate::base::*;
use qcd_sme as q;

pub static FNS: &[F] = &[
  F { id: 0, path: "common", name: "energy_squared", params: &[2, 3], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::energy_squared(a.v[2].re, a.v[3].re).into() },
       V { mask: 1, real: false, call: |a| q::common::energy_squared(a.v[2].re, a.v[3]).into() }] },
  F { id: 1, path: "common", name: "energy", params: &[2, 3], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::energy(a.v[2].re, a.v[3].re).into() },
       V { mask: 1, real: false, call: |a| q::common::energy(a.v[2].re, a.v[3]).into() }] },
  F { id: 2, path: "common::thermal", name: "fermi_momentum", params: &[3, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::fermi_momentum(a.v[3].re, a.v[8].re).into() }] },
  F { id: 3, path: "common::thermal", name: "fermi_distribution", params: &[13, 7, 8], integral: false, cfg: false, gens: &[&[13], &[], &[8]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::fermi_distribution(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::fermi_distribution(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 2, real: true, call: |a| q::common::thermal::fermi_distribution(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::common::thermal::fermi_distribution(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 5, real: false, call: |a| q::common::thermal::fermi_distribution(a.v[13], a.v[7].re, a.v[8]).into() },
       V { mask: 7, real: false, call: |a| q::common::thermal::fermi_distribution(a.v[13], a.v[7].re, a.v[8]).into() }] },
  F { id: 4, path: "common::thermal", name: "fermi_distribution_zero_temp", params: &[13, 8], integral: false, cfg: false, gens: &[&[13], &[], &[8]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::fermi_distribution_zero_temp(a.v[13].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::fermi_distribution_zero_temp(a.v[13], a.v[8].re).into() },
       V { mask: 2, real: true, call: |a| q::common::thermal::fermi_distribution_zero_temp(a.v[13].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::common::thermal::fermi_distribution_zero_temp(a.v[13], a.v[8].re).into() },
       V { mask: 5, real: false, call: |a| q::common::thermal::fermi_distribution_zero_temp(a.v[13], a.v[8]).into() },
       V { mask: 7, real: false, call: |a| q::common::thermal::fermi_distribution_zero_temp(a.v[13], a.v[8]).into() }] },
  F { id: 5, path: "common::thermal", name: "fermi_distribution_double", params: &[13, 7, 8], integral: false, cfg: false, gens: &[&[13], &[], &[8]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::fermi_distribution_double(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::fermi_distribution_double(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 2, real: true, call: |a| q::common::thermal::fermi_distribution_double(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::common::thermal::fermi_distribution_double(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 5, real: false, call: |a| q::common::thermal::fermi_distribution_double(a.v[13], a.v[7].re, a.v[8]).into() },
       V { mask: 7, real: false, call: |a| q::common::thermal::fermi_distribution_double(a.v[13], a.v[7].re, a.v[8]).into() }] },
  F { id: 6, path: "common::thermal", name: "fermi_distribution_double_zero_temp", params: &[13, 8], integral: false, cfg: false, gens: &[&[13], &[], &[8]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::fermi_distribution_double_zero_temp(a.v[13].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::fermi_distribution_double_zero_temp(a.v[13], a.v[8].re).into() },
       V { mask: 2, real: true, call: |a| q::common::thermal::fermi_distribution_double_zero_temp(a.v[13].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::common::thermal::fermi_distribution_double_zero_temp(a.v[13], a.v[8].re).into() },
       V { mask: 5, real: false, call: |a| q::common::thermal::fermi_distribution_double_zero_temp(a.v[13], a.v[8]).into() },
       V { mask: 7, real: false, call: |a| q::common::thermal::fermi_distribution_double_zero_temp(a.v[13], a.v[8]).into() }] },
  F { id: 7, path: "common::thermal", name: "fermi_distribution_zero_chempot", params: &[13, 7], integral: false, cfg: false, gens: &[&[13]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::fermi_distribution_zero_chempot(a.v[13].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::fermi_distribution_zero_chempot(a.v[13], a.v[7].re).into() }] },
  F { id: 8, path: "common::thermal", name: "bose_distribution", params: &[13, 7, 8], integral: false, cfg: false, gens: &[&[13], &[], &[8]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::bose_distribution(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::bose_distribution(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 2, real: true, call: |a| q::common::thermal::bose_distribution(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::common::thermal::bose_distribution(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 5, real: false, call: |a| q::common::thermal::bose_distribution(a.v[13], a.v[7].re, a.v[8]).into() },
       V { mask: 7, real: false, call: |a| q::common::thermal::bose_distribution(a.v[13], a.v[7].re, a.v[8]).into() }] },
  F { id: 9, path: "common::thermal", name: "bose_distribution_zero_chempot", params: &[13, 7], integral: false, cfg: false, gens: &[&[13]],
     vars: &[V { mask: 0, real: true, call: |a| q::common::thermal::bose_distribution_zero_chempot(a.v[13].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::common::thermal::bose_distribution_zero_chempot(a.v[13], a.v[7].re).into() }] },
  F { id: 10, path: "low_level::common", name: "statistic_distribution_exponential", params: &[13, 7, 8], integral: false, cfg: false, gens: &[&[13], &[], &[8]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::common::statistic_distribution_exponential(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::common::statistic_distribution_exponential(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 2, real: true, call: |a| q::low_level::common::statistic_distribution_exponential(a.v[13].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::common::statistic_distribution_exponential(a.v[13], a.v[7].re, a.v[8].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::common::statistic_distribution_exponential(a.v[13], a.v[7].re, a.v[8]).into() },
       V { mask: 7, real: false, call: |a| q::low_level::common::statistic_distribution_exponential(a.v[13], a.v[7].re, a.v[8]).into() }] },
  F { id: 11, path: "low_level::common", name: "statistic_distribution_exponential_zero_chempot", params: &[13, 7], integral: false, cfg: false, gens: &[&[13]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::common::statistic_distribution_exponential_zero_chempot(a.v[13].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::common::statistic_distribution_exponential_zero_chempot(a.v[13], a.v[7].re).into() }] },
  F { id: 12, path: "low_level::oneloop::ghost", name: "g_sep", params: &[12, 15, 16], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::ghost::g_sep(a.v[12].re, a.v[15].re, a.v[16].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::ghost::g_sep(a.v[12], a.v[15], a.v[16]).into() }] },
  F { id: 13, path: "low_level::oneloop::ghost", name: "g", params: &[12], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::ghost::g(a.v[12].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::ghost::g(a.v[12]).into() }] },
  F { id: 14, path: "low_level::oneloop::ghost", name: "g_xi_sep", params: &[15], integral: false, cfg: false, gens: &[&[15]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::ghost::g_xi_sep(a.v[15].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::ghost::g_xi_sep(a.v[15]).into() }] },
  F { id: 15, path: "low_level::oneloop::ghost", name: "g_xi", params: &[12], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::ghost::g_xi(a.v[12].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::ghost::g_xi(a.v[12]).into() }] },
  F { id: 16, path: "low_level::oneloop::ghost", name: "dressing_inv_landau_sep", params: &[12, 15, 16, 10], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::ghost::dressing_inv_landau_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::ghost::dressing_inv_landau_sep(a.v[12], a.v[15], a.v[16], a.v[10].re).into() }] },
  F { id: 17, path: "low_level::oneloop::ghost", name: "dressing_inv_sep", params: &[12, 15, 16, 10, 11], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::ghost::dressing_inv_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::ghost::dressing_inv_sep(a.v[12], a.v[15], a.v[16], a.v[10].re, a.v[11].re).into() }] },
  F { id: 18, path: "low_level::oneloop::gluon", name: "f_sep", params: &[12, 15, 16], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::f_sep(a.v[12].re, a.v[15].re, a.v[16].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::f_sep(a.v[12], a.v[15], a.v[16]).into() }] },
  F { id: 19, path: "low_level::oneloop::gluon", name: "f", params: &[12], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::f(a.v[12].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::f(a.v[12]).into() }] },
  F { id: 20, path: "low_level::oneloop::gluon", name: "f_xi_sep", params: &[12, 15, 16], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::f_xi_sep(a.v[12].re, a.v[15].re, a.v[16].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::f_xi_sep(a.v[12], a.v[15], a.v[16]).into() }] },
  F { id: 21, path: "low_level::oneloop::gluon", name: "f_xi", params: &[12], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::f_xi(a.v[12].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::f_xi(a.v[12]).into() }] },
  F { id: 22, path: "low_level::oneloop::gluon", name: "f_q", params: &[12], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::f_q(a.v[12].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::f_q(a.v[12]).into() }] },
  F { id: 23, path: "low_level::oneloop::gluon", name: "f_q_crossed", params: &[12], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::f_q_crossed(a.v[12].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::f_q_crossed(a.v[12]).into() }] },
  F { id: 24, path: "low_level::oneloop::gluon", name: "ym_dressing_inv_landau_sep", params: &[12, 15, 16, 9], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(a.v[12], a.v[15], a.v[16], a.v[9].re).into() }] },
  F { id: 25, path: "low_level::oneloop::gluon", name: "ym_dressing_inv_sep", params: &[12, 15, 16, 9, 11], integral: false, cfg: false, gens: &[&[12,15,16]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::gluon::ym_dressing_inv_sep(a.v[12].re, a.v[15].re, a.v[16].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::gluon::ym_dressing_inv_sep(a.v[12], a.v[15], a.v[16], a.v[9].re, a.v[11].re).into() }] },
  F { id: 26, path: "low_level::oneloop::thermal", name: "tlog", params: &[0, 1, 2, 13, 14], integral: false, cfg: false, gens: &[&[1], &[13], &[14]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re, a.v[14].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13], a.v[14].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1], a.v[2].re, a.v[13], a.v[14].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14]).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re, a.v[14]).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13], a.v[14]).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::tlog(a.v[0].re, a.v[1], a.v[2].re, a.v[13], a.v[14]).into() }] },
  F { id: 27, path: "low_level::oneloop::thermal", name: "tlog_same_mass", params: &[0, 1, 2, 13], integral: false, cfg: false, gens: &[&[1], &[2], &[13]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[13].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[13].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13]).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[13]).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[13]).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::tlog_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[13]).into() }] },
  F { id: 28, path: "low_level::oneloop::thermal", name: "tlog_zero_mass", params: &[0, 1, 2], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_zero_mass(a.v[0].re, a.v[1].re, a.v[2].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_zero_mass(a.v[0].re, a.v[1], a.v[2].re).into() }] },
  F { id: 29, path: "low_level::oneloop::thermal", name: "tlog_l", params: &[0, 1, 2, 13, 14], integral: false, cfg: false, gens: &[&[1], &[13], &[14]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re, a.v[14].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13], a.v[14].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1], a.v[2].re, a.v[13], a.v[14].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14]).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re, a.v[14]).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13], a.v[14]).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l(a.v[0].re, a.v[1], a.v[2].re, a.v[13], a.v[14]).into() }] },
  F { id: 30, path: "low_level::oneloop::thermal", name: "tlog_l_same_mass", params: &[0, 1, 2, 13], integral: false, cfg: false, gens: &[&[1], &[13]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13]).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[13]).into() }] },
  F { id: 31, path: "low_level::oneloop::thermal", name: "tlog_l_zero_mass", params: &[0, 1, 2], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l_zero_mass(a.v[0].re, a.v[1].re, a.v[2].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_l_zero_mass(a.v[0].re, a.v[1], a.v[2].re).into() }] },
  F { id: 32, path: "low_level::oneloop::thermal", name: "tlog_t", params: &[0, 1, 2, 13, 14], integral: false, cfg: false, gens: &[&[1], &[13], &[14]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re, a.v[14].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13], a.v[14].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1], a.v[2].re, a.v[13], a.v[14].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re, a.v[14]).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re, a.v[14]).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13], a.v[14]).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t(a.v[0].re, a.v[1], a.v[2].re, a.v[13], a.v[14]).into() }] },
  F { id: 33, path: "low_level::oneloop::thermal", name: "tlog_t_same_mass", params: &[0, 1, 2, 13], integral: false, cfg: false, gens: &[&[1], &[13]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[13].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[13]).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[13]).into() }] },
  F { id: 34, path: "low_level::oneloop::thermal", name: "tlog_t_zero_mass", params: &[0, 1, 2], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t_zero_mass(a.v[0].re, a.v[1].re, a.v[2].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::tlog_t_zero_mass(a.v[0].re, a.v[1], a.v[2].re).into() }] },
  F { id: 35, path: "low_level::oneloop::thermal", name: "j_m_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::j_m_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::j_m_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 36, path: "low_level::oneloop::thermal", name: "j_0_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::j_0_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 37, path: "low_level::oneloop::thermal", name: "j_m_l_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::j_m_l_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::j_m_l_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 38, path: "low_level::oneloop::thermal", name: "j_0_l_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::j_0_l_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 39, path: "low_level::oneloop::thermal", name: "j_m_t_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::j_m_t_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::j_m_t_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 40, path: "low_level::oneloop::thermal", name: "j_0_t_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::j_0_t_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 41, path: "low_level::oneloop::thermal", name: "i_m_m_i", params: &[0, 1, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 42, path: "low_level::oneloop::thermal", name: "i_m_m_i_same_mass", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 43, path: "low_level::oneloop::thermal", name: "i_m_0_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_i(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 44, path: "low_level::oneloop::thermal", name: "i_0_0_i", params: &[0, 1, 2, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[7].re).into() }] },
  F { id: 45, path: "low_level::oneloop::thermal", name: "i_m_m_l_i", params: &[0, 1, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 46, path: "low_level::oneloop::thermal", name: "i_m_m_l_i_same_mass", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 47, path: "low_level::oneloop::thermal", name: "i_m_0_l_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_l_i(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 48, path: "low_level::oneloop::thermal", name: "i_0_0_l_i", params: &[0, 1, 2, 7], integral: false, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[2], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_l_i(a.v[0].re, a.v[1], a.v[2], a.v[7].re).into() }] },
  F { id: 49, path: "low_level::oneloop::thermal", name: "i_m_m_t_i", params: &[0, 1, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 50, path: "low_level::oneloop::thermal", name: "i_m_m_t_i_same_mass", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 51, path: "low_level::oneloop::thermal", name: "i_m_0_t_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::i_m_0_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 52, path: "low_level::oneloop::thermal", name: "i_0_0_t_i", params: &[0, 1, 2, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::i_0_0_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[7].re).into() }] },
  F { id: 53, path: "low_level::oneloop::thermal", name: "d_j_m_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d_j_m_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_j_m_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 54, path: "low_level::oneloop::thermal", name: "d_j_0_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d_j_0_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 55, path: "low_level::oneloop::thermal", name: "d2_j_m_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d2_j_m_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d2_j_m_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 56, path: "low_level::oneloop::thermal", name: "d2_j_0_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d2_j_0_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 57, path: "low_level::oneloop::thermal", name: "d_j_m_l_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d_j_m_l_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_j_m_l_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 58, path: "low_level::oneloop::thermal", name: "d_j_0_l_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d_j_0_l_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 59, path: "low_level::oneloop::thermal", name: "d2_j_m_l_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d2_j_m_l_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d2_j_m_l_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 60, path: "low_level::oneloop::thermal", name: "d2_j_0_l_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d2_j_0_l_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 61, path: "low_level::oneloop::thermal", name: "d_j_m_t_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d_j_m_t_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_j_m_t_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 62, path: "low_level::oneloop::thermal", name: "d_j_0_t_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d_j_0_t_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 63, path: "low_level::oneloop::thermal", name: "d2_j_m_t_i", params: &[0, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d2_j_m_t_i(a.v[0].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d2_j_m_t_i(a.v[0].re, a.v[3], a.v[7].re).into() }] },
  F { id: 64, path: "low_level::oneloop::thermal", name: "d2_j_0_t_i", params: &[0, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::d2_j_0_t_i(a.v[0].re, a.v[7].re).into() }] },
  F { id: 65, path: "low_level::oneloop::thermal", name: "d_i_m_m_i", params: &[0, 1, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 66, path: "low_level::oneloop::thermal", name: "d_i_m_m_i_same_mass", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 67, path: "low_level::oneloop::thermal", name: "d_i_m_0_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_i(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 68, path: "low_level::oneloop::thermal", name: "d_i_0_0_i", params: &[0, 1, 2, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_0_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_0_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[7].re).into() }] },
  F { id: 69, path: "low_level::oneloop::thermal", name: "d_i_m_m_l_i", params: &[0, 1, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 70, path: "low_level::oneloop::thermal", name: "d_i_m_m_l_i_same_mass", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 71, path: "low_level::oneloop::thermal", name: "d_i_m_0_l_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[2], a.v[3], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_l_i(a.v[0].re, a.v[1], a.v[2], a.v[3], a.v[7].re).into() }] },
  F { id: 72, path: "low_level::oneloop::thermal", name: "d_i_0_0_l_i", params: &[0, 1, 2, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_0_0_l_i(a.v[0].re, a.v[1], a.v[2].re, a.v[7].re).into() }] },
  F { id: 73, path: "low_level::oneloop::thermal", name: "d_i_m_m_t_i", params: &[0, 1, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 74, path: "low_level::oneloop::thermal", name: "d_i_m_m_t_i_same_mass", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 75, path: "low_level::oneloop::thermal", name: "d_i_m_t_0_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_t_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_t_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_t_0_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_t_0_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 76, path: "low_level::oneloop::thermal", name: "d_i_m_0_t_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::d_i_m_0_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 77, path: "low_level::oneloop::thermal", name: "d_i_0_0_t_i", params: &[0, 1, 2, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::d_i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::d_i_0_0_t_i(a.v[0].re, a.v[1], a.v[2].re, a.v[7].re).into() }] },
  F { id: 78, path: "low_level::oneloop::thermal::ghost", name: "self_energy_thermal_part_landau_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 79, path: "low_level::oneloop::thermal::ghost", name: "self_energy_thermal_part_landau_w_method", params: &[1, 2, 3, 7], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 80, path: "low_level::oneloop::thermal::ghost", name: "self_energy_thermal_part_landau", params: &[1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 81, path: "low_level::oneloop::thermal::ghost::zero_matsubara", name: "self_energy_thermal_part_landau_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 82, path: "low_level::oneloop::thermal::ghost::zero_matsubara", name: "self_energy_thermal_part_landau_w_method", params: &[2, 3, 7], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method(a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 83, path: "low_level::oneloop::thermal::ghost::zero_matsubara", name: "self_energy_thermal_part_landau", params: &[2, 3, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau(a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 84, path: "low_level::oneloop::thermal::ghost::zero_momentum", name: "self_energy_thermal_part_landau_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() }] },
  F { id: 85, path: "low_level::oneloop::thermal::ghost::zero_momentum", name: "self_energy_thermal_part_landau_w_method", params: &[1, 3, 7], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a.v[1].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(a.v[1], a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 86, path: "low_level::oneloop::thermal::ghost::zero_momentum", name: "self_energy_thermal_part_landau", params: &[1, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(a.v[1], a.v[3].re, a.v[7].re).into() }] },
  F { id: 87, path: "low_level::oneloop::thermal::gluon", name: "polarization_glue_l_thermal_part_landau_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 88, path: "low_level::oneloop::thermal::gluon", name: "polarization_glue_t_thermal_part_landau_i", params: &[0, 1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 89, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_l_thermal_part_landau_i", params: &[0, 1, 2, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 90, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_t_thermal_part_landau_i", params: &[0, 1, 2, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 91, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_l_thermal_part_zero_temp_landau_i", params: &[0, 1, 2, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 92, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_t_thermal_part_zero_temp_landau_i", params: &[0, 1, 2, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1], a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 93, path: "low_level::oneloop::thermal::gluon", name: "polarization_glue_l_thermal_part_landau_w_method", params: &[1, 2, 3, 7], integral: true, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.v[1].re, a.v[2], a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(a.v[1], a.v[2], a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 94, path: "low_level::oneloop::thermal::gluon", name: "polarization_glue_t_thermal_part_landau_w_method", params: &[1, 2, 3, 7], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 95, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_l_thermal_part_landau_w_method", params: &[1, 2, 6, 7, 8], integral: true, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.v[1], a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.v[1].re, a.v[2], a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(a.v[1], a.v[2], a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 96, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_t_thermal_part_landau_w_method", params: &[1, 2, 6, 7, 8], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(a.v[1], a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 97, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &[1, 2, 6, 8], integral: true, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[1], a.v[2].re, a.v[6].re, a.v[8].re, a.integral()).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[1].re, a.v[2], a.v[6].re, a.v[8].re, a.integral()).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[1], a.v[2], a.v[6].re, a.v[8].re, a.integral()).into() }] },
  F { id: 98, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &[1, 2, 6, 8], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.v[1], a.v[2].re, a.v[6].re, a.v[8].re, a.integral()).into() }] },
  F { id: 99, path: "low_level::oneloop::thermal::gluon", name: "polarization_glue_l_thermal_part_landau", params: &[1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.v[1].re, a.v[2], a.v[3].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(a.v[1], a.v[2], a.v[3].re, a.v[7].re).into() }] },
  F { id: 100, path: "low_level::oneloop::thermal::gluon", name: "polarization_glue_t_thermal_part_landau", params: &[1, 2, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 101, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_l_thermal_part_landau", params: &[1, 2, 6, 7, 8], integral: false, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.v[1], a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.v[1].re, a.v[2], a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(a.v[1], a.v[2], a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 102, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_t_thermal_part_landau", params: &[1, 2, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a.v[1].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(a.v[1], a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 103, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_l_thermal_part_zero_temp_landau", params: &[1, 2, 6, 8], integral: false, cfg: false, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.v[1], a.v[2].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.v[1].re, a.v[2], a.v[6].re, a.v[8].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(a.v[1], a.v[2], a.v[6].re, a.v[8].re).into() }] },
  F { id: 104, path: "low_level::oneloop::thermal::gluon", name: "polarization_quark_t_thermal_part_zero_temp_landau", params: &[1, 2, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(a.v[1], a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 105, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_glue_l_thermal_part_landau_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 106, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_glue_t_thermal_part_landau_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 107, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_l_thermal_part_landau_i", params: &[0, 2, 6, 7, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 108, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_t_thermal_part_landau_i", params: &[0, 2, 6, 7, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 109, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_l_thermal_part_zero_temp_landau_i", params: &[0, 2, 6, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 110, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_t_thermal_part_zero_temp_landau_i", params: &[0, 2, 6, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 111, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_glue_l_thermal_part_landau_w_method", params: &[2, 3, 7], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 112, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_glue_t_thermal_part_landau_w_method", params: &[2, 3, 7], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(a.v[2].re, a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 113, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_l_thermal_part_landau_w_method", params: &[2, 6, 7, 8], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 114, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_t_thermal_part_landau_w_method", params: &[2, 6, 7, 8], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 115, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &[2, 6, 8], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[2].re, a.v[6].re, a.v[8].re, a.integral()).into() }] },
  F { id: 116, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &[2, 6, 8], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.v[2].re, a.v[6].re, a.v[8].re, a.integral()).into() }] },
  F { id: 117, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_glue_l_thermal_part_landau", params: &[2, 3, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau(a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 118, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_glue_t_thermal_part_landau", params: &[2, 3, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau(a.v[2].re, a.v[3].re, a.v[7].re).into() }] },
  F { id: 119, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_l_thermal_part_landau", params: &[2, 6, 7, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau(a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 120, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_t_thermal_part_landau", params: &[2, 6, 7, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau(a.v[2].re, a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 121, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_l_thermal_part_zero_temp_landau", params: &[2, 6, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau(a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 122, path: "low_level::oneloop::thermal::gluon::zero_matsubara", name: "polarization_quark_t_thermal_part_zero_temp_landau", params: &[2, 6, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau(a.v[2].re, a.v[6].re, a.v[8].re).into() }] },
  F { id: 123, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_glue_l_thermal_part_landau_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() }] },
  F { id: 124, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_glue_t_thermal_part_landau_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() }] },
  F { id: 125, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_l_thermal_part_landau_i", params: &[0, 1, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 126, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_t_thermal_part_landau_i", params: &[0, 1, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(a.v[0].re, a.v[1], a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 127, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_l_thermal_part_zero_temp_landau_i", params: &[0, 1, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1], a.v[6].re, a.v[8].re).into() }] },
  F { id: 128, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_t_thermal_part_zero_temp_landau_i", params: &[0, 1, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(a.v[0].re, a.v[1], a.v[6].re, a.v[8].re).into() }] },
  F { id: 129, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_glue_l_thermal_part_landau_w_method", params: &[1, 3, 7], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a.v[1].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(a.v[1], a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 130, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_glue_t_thermal_part_landau_w_method", params: &[1, 3, 7], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a.v[1].re, a.v[3].re, a.v[7].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(a.v[1], a.v[3].re, a.v[7].re, a.integral()).into() }] },
  F { id: 131, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_l_thermal_part_landau_w_method", params: &[1, 6, 7, 8], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(a.v[1], a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 132, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_t_thermal_part_landau_w_method", params: &[1, 6, 7, 8], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(a.v[1], a.v[6].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 133, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_l_thermal_part_zero_temp_landau_w_method", params: &[1, 6, 8], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[1].re, a.v[6].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(a.v[1], a.v[6].re, a.v[8].re, a.integral()).into() }] },
  F { id: 134, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_t_thermal_part_zero_temp_landau_w_method", params: &[1, 6, 8], integral: true, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.v[1].re, a.v[6].re, a.v[8].re, a.integral()).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(a.v[1], a.v[6].re, a.v[8].re, a.integral()).into() }] },
  F { id: 135, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_glue_l_thermal_part_landau", params: &[1, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(a.v[1], a.v[3].re, a.v[7].re).into() }] },
  F { id: 136, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_glue_t_thermal_part_landau", params: &[1, 3, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(a.v[1], a.v[3].re, a.v[7].re).into() }] },
  F { id: 137, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_l_thermal_part_landau", params: &[1, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(a.v[1], a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 138, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_t_thermal_part_landau", params: &[1, 6, 7, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a.v[1].re, a.v[6].re, a.v[7].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(a.v[1], a.v[6].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 139, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_l_thermal_part_zero_temp_landau", params: &[1, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a.v[1].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(a.v[1], a.v[6].re, a.v[8].re).into() }] },
  F { id: 140, path: "low_level::oneloop::thermal::gluon::zero_momentum", name: "polarization_quark_t_thermal_part_zero_temp_landau", params: &[1, 6, 8], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a.v[1].re, a.v[6].re, a.v[8].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(a.v[1], a.v[6].re, a.v[8].re).into() }] },
  F { id: 141, path: "low_level::oneloop::thermal::zero_matsubara", name: "tlog", params: &[0, 2, 14], integral: false, cfg: false, gens: &[&[14]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog(a.v[0].re, a.v[2].re, a.v[14].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog(a.v[0].re, a.v[2].re, a.v[14]).into() }] },
  F { id: 142, path: "low_level::oneloop::thermal::zero_matsubara", name: "tlog_same_mass", params: &[0, 2], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog_same_mass(a.v[0].re, a.v[2].re).into() }] },
  F { id: 143, path: "low_level::oneloop::thermal::zero_matsubara", name: "tlog_zero_mass", params: &[0, 2], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(a.v[0].re, a.v[2].re).into() }] },
  F { id: 144, path: "low_level::oneloop::thermal::zero_matsubara", name: "tlog_t", params: &[0, 2, 14], integral: false, cfg: false, gens: &[&[14]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog_t(a.v[0].re, a.v[2].re, a.v[14].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog_t(a.v[0].re, a.v[2].re, a.v[14]).into() }] },
  F { id: 145, path: "low_level::oneloop::thermal::zero_matsubara", name: "tlog_t_same_mass", params: &[0, 2], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass(a.v[0].re, a.v[2].re).into() }] },
  F { id: 146, path: "low_level::oneloop::thermal::zero_matsubara", name: "tlog_t_zero_mass", params: &[0, 2], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass(a.v[0].re, a.v[2].re).into() }] },
  F { id: 147, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_m_i", params: &[0, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 148, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_m_i_same_mass", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 149, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_0_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 150, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_0_0_i", params: &[0, 2, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_0_0_i(a.v[0].re, a.v[2].re, a.v[7].re).into() }] },
  F { id: 151, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_m_l_i", params: &[0, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 152, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_m_l_i_same_mass", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 153, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_0_l_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 154, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_0_0_l_i", params: &[0, 2, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i(a.v[0].re, a.v[2].re, a.v[7].re).into() }] },
  F { id: 155, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_m_t_i", params: &[0, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 156, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_m_t_i_same_mass", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 157, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_m_0_t_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 158, path: "low_level::oneloop::thermal::zero_matsubara", name: "i_0_0_t_i", params: &[0, 2, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i(a.v[0].re, a.v[2].re, a.v[7].re).into() }] },
  F { id: 159, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_m_i", params: &[0, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 160, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_m_i_same_mass", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 161, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_0_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 162, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_0_0_i", params: &[0, 2, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i(a.v[0].re, a.v[2].re, a.v[7].re).into() }] },
  F { id: 163, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_m_l_i", params: &[0, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 164, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_m_l_i_same_mass", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 165, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_0_l_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 166, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_0_0_l_i", params: &[0, 2, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i(a.v[0].re, a.v[2].re, a.v[7].re).into() }] },
  F { id: 167, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_m_t_i", params: &[0, 2, 4, 5, 7], integral: false, cfg: false, gens: &[&[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(a.v[0].re, a.v[2].re, a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 168, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_m_t_i_same_mass", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 169, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_t_0_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 170, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_m_0_t_i", params: &[0, 2, 3, 7], integral: false, cfg: false, gens: &[&[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a.v[0].re, a.v[2].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(a.v[0].re, a.v[2].re, a.v[3], a.v[7].re).into() }] },
  F { id: 171, path: "low_level::oneloop::thermal::zero_matsubara", name: "d_i_0_0_t_i", params: &[0, 2, 7], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i(a.v[0].re, a.v[2].re, a.v[7].re).into() }] },
  F { id: 172, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_m_i", params: &[0, 1, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1], a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i(a.v[0].re, a.v[1], a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 173, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_m_i_same_mass", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 174, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_0_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_i(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 175, path: "low_level::oneloop::thermal::zero_momentum", name: "i_0_0_i", params: &[0, 1, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a.v[0].re, a.v[1].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_0_0_i(a.v[0].re, a.v[1], a.v[7].re).into() }] },
  F { id: 176, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_m_l_i", params: &[0, 1, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1], a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(a.v[0].re, a.v[1], a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 177, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_m_l_i_same_mass", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 178, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_0_l_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 179, path: "low_level::oneloop::thermal::zero_momentum", name: "i_0_0_l_i", params: &[0, 1, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(a.v[0].re, a.v[1], a.v[7].re).into() }] },
  F { id: 180, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_m_t_i", params: &[0, 1, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1], a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(a.v[0].re, a.v[1], a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 181, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_m_t_i_same_mass", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 182, path: "low_level::oneloop::thermal::zero_momentum", name: "i_m_0_t_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 183, path: "low_level::oneloop::thermal::zero_momentum", name: "i_0_0_t_i", params: &[0, 1, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(a.v[0].re, a.v[1], a.v[7].re).into() }] },
  F { id: 184, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_m_i", params: &[0, 1, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1], a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(a.v[0].re, a.v[1], a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 185, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_m_i_same_mass", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 186, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_0_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 187, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_0_0_i", params: &[0, 1, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a.v[0].re, a.v[1].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(a.v[0].re, a.v[1], a.v[7].re).into() }] },
  F { id: 188, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_m_l_i", params: &[0, 1, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(a.v[0].re, a.v[1], a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 189, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_m_l_i_same_mass", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 190, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_0_l_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 191, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_0_0_l_i", params: &[0, 1, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a.v[0].re, a.v[1].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(a.v[0].re, a.v[1], a.v[7].re).into() }] },
  F { id: 192, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_m_t_i", params: &[0, 1, 4, 5, 7], integral: false, cfg: false, gens: &[&[1], &[4], &[5]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[4], a.v[5].re, a.v[7].re).into() },
       V { mask: 4, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 5, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[4].re, a.v[5], a.v[7].re).into() },
       V { mask: 6, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1].re, a.v[4], a.v[5], a.v[7].re).into() },
       V { mask: 7, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(a.v[0].re, a.v[1], a.v[4], a.v[5], a.v[7].re).into() }] },
  F { id: 193, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_m_t_i_same_mass", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 194, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_m_0_t_i", params: &[0, 1, 3, 7], integral: false, cfg: false, gens: &[&[1], &[3]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[3].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.v[0].re, a.v[1], a.v[3].re, a.v[7].re).into() },
       V { mask: 2, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.v[0].re, a.v[1].re, a.v[3], a.v[7].re).into() },
       V { mask: 3, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(a.v[0].re, a.v[1], a.v[3], a.v[7].re).into() }] },
  F { id: 195, path: "low_level::oneloop::thermal::zero_momentum", name: "d_i_0_0_t_i", params: &[0, 1, 7], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a.v[0].re, a.v[1].re, a.v[7].re).into() },
       V { mask: 1, real: false, call: |a| q::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(a.v[0].re, a.v[1], a.v[7].re).into() }] },
  F { id: 196, path: "ym::ghost", name: "dressing_inv_landau", params: &[12, 10], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::ghost::dressing_inv_landau(a.v[12].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::ghost::dressing_inv_landau(a.v[12], a.v[10].re).into() }] },
  F { id: 197, path: "ym::ghost", name: "dressing_inv", params: &[12, 10, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::ghost::dressing_inv(a.v[12].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::ghost::dressing_inv(a.v[12], a.v[10].re, a.v[11].re).into() }] },
  F { id: 198, path: "ym::ghost", name: "dressing_landau", params: &[12, 10], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::ghost::dressing_landau(a.v[12].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::ghost::dressing_landau(a.v[12], a.v[10].re).into() }] },
  F { id: 199, path: "ym::ghost", name: "dressing", params: &[12, 10, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::ghost::dressing(a.v[12].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::ghost::dressing(a.v[12], a.v[10].re, a.v[11].re).into() }] },
  F { id: 200, path: "ym::ghost", name: "propagator_landau", params: &[12, 10], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::ghost::propagator_landau(a.v[12].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::ghost::propagator_landau(a.v[12], a.v[10].re).into() }] },
  F { id: 201, path: "ym::ghost", name: "propagator", params: &[12, 10, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::ghost::propagator(a.v[12].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::ghost::propagator(a.v[12], a.v[10].re, a.v[11].re).into() }] },
  F { id: 202, path: "ym::gluon", name: "dressing_inv_landau", params: &[12, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::gluon::dressing_inv_landau(a.v[12].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::gluon::dressing_inv_landau(a.v[12], a.v[9].re).into() }] },
  F { id: 203, path: "ym::gluon", name: "dressing_inv", params: &[12, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::gluon::dressing_inv(a.v[12].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::gluon::dressing_inv(a.v[12], a.v[9].re, a.v[11].re).into() }] },
  F { id: 204, path: "ym::gluon", name: "dressing_landau", params: &[12, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::gluon::dressing_landau(a.v[12].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::gluon::dressing_landau(a.v[12], a.v[9].re).into() }] },
  F { id: 205, path: "ym::gluon", name: "dressing", params: &[12, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::gluon::dressing(a.v[12].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::gluon::dressing(a.v[12], a.v[9].re, a.v[11].re).into() }] },
  F { id: 206, path: "ym::gluon", name: "propagator_landau", params: &[12, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::gluon::propagator_landau(a.v[12].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::gluon::propagator_landau(a.v[12], a.v[9].re).into() }] },
  F { id: 207, path: "ym::gluon", name: "propagator", params: &[12, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::gluon::propagator(a.v[12].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::gluon::propagator(a.v[12], a.v[9].re, a.v[11].re).into() }] },
  F { id: 208, path: "ym::thermal::ghost", name: "dressing_inv_landau", params: &[1, 2, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::ghost::dressing_inv_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::ghost::dressing_inv_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 209, path: "ym::thermal::ghost", name: "dressing_landau", params: &[1, 2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::ghost::dressing_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 210, path: "ym::thermal::ghost", name: "propagator_landau", params: &[1, 2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::ghost::propagator_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 211, path: "ym::thermal::gluon", name: "dressing_l_inv_landau", params: &[1, 2, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::gluon::dressing_l_inv_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::gluon::dressing_l_inv_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 212, path: "ym::thermal::gluon", name: "dressing_t_inv_landau", params: &[1, 2, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::gluon::dressing_t_inv_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::gluon::dressing_t_inv_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 213, path: "ym::thermal::gluon", name: "dressing_l_landau", params: &[1, 2, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::gluon::dressing_l_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::gluon::dressing_l_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 214, path: "ym::thermal::gluon", name: "dressing_t_landau", params: &[1, 2, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::gluon::dressing_t_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::gluon::dressing_t_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 215, path: "ym::thermal::gluon", name: "propagator_l_landau", params: &[1, 2, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::gluon::propagator_l_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::gluon::propagator_l_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 216, path: "ym::thermal::gluon", name: "propagator_t_landau", params: &[1, 2, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::gluon::propagator_t_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::gluon::propagator_t_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 217, path: "ym::thermal::zero_matsubara::ghost", name: "dressing_inv_landau", params: &[2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::ghost::dressing_inv_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 218, path: "ym::thermal::zero_matsubara::ghost", name: "dressing_landau", params: &[2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::ghost::dressing_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 219, path: "ym::thermal::zero_matsubara::ghost", name: "propagator_landau", params: &[2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::ghost::propagator_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 220, path: "ym::thermal::zero_matsubara::gluon", name: "dressing_l_inv_landau", params: &[2, 3, 7, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 221, path: "ym::thermal::zero_matsubara::gluon", name: "dressing_t_inv_landau", params: &[2, 3, 7, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 222, path: "ym::thermal::zero_matsubara::gluon", name: "dressing_l_landau", params: &[2, 3, 7, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::gluon::dressing_l_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 223, path: "ym::thermal::zero_matsubara::gluon", name: "dressing_t_landau", params: &[2, 3, 7, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::gluon::dressing_t_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 224, path: "ym::thermal::zero_matsubara::gluon", name: "propagator_l_landau", params: &[2, 3, 7, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::gluon::propagator_l_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 225, path: "ym::thermal::zero_matsubara::gluon", name: "propagator_t_landau", params: &[2, 3, 7, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::ym::thermal::zero_matsubara::gluon::propagator_t_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 226, path: "ym::thermal::zero_momentum::ghost", name: "dressing_inv_landau", params: &[1, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::ghost::dressing_inv_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 227, path: "ym::thermal::zero_momentum::ghost", name: "dressing_landau", params: &[1, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::ghost::dressing_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::ghost::dressing_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 228, path: "ym::thermal::zero_momentum::ghost", name: "propagator_landau", params: &[1, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::ghost::propagator_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::ghost::propagator_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 229, path: "ym::thermal::zero_momentum::gluon", name: "dressing_l_inv_landau", params: &[1, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 230, path: "ym::thermal::zero_momentum::gluon", name: "dressing_t_inv_landau", params: &[1, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 231, path: "ym::thermal::zero_momentum::gluon", name: "dressing_l_landau", params: &[1, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_l_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_l_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 232, path: "ym::thermal::zero_momentum::gluon", name: "dressing_t_landau", params: &[1, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_t_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::dressing_t_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 233, path: "ym::thermal::zero_momentum::gluon", name: "propagator_l_landau", params: &[1, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::propagator_l_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::propagator_l_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 234, path: "ym::thermal::zero_momentum::gluon", name: "propagator_t_landau", params: &[1, 3, 7, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::propagator_t_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::ym::thermal::zero_momentum::gluon::propagator_t_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[9].re).into() }] },
  F { id: 235, path: "qcd::gluon", name: "dressing_inv_landau", params: &[12, 6, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_inv_landau(a.v[12].re, a.v[6].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_inv_landau(a.v[12], a.v[6].re, a.v[9].re).into() }] },
  F { id: 236, path: "qcd::gluon", name: "dressing_inv", params: &[12, 6, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_inv(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_inv(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re).into() }] },
  F { id: 237, path: "qcd::gluon", name: "dressing_landau", params: &[12, 6, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_landau(a.v[12].re, a.v[6].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_landau(a.v[12], a.v[6].re, a.v[9].re).into() }] },
  F { id: 238, path: "qcd::gluon", name: "dressing", params: &[12, 6, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re).into() }] },
  F { id: 239, path: "qcd::gluon", name: "propagator_landau", params: &[12, 6, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_landau(a.v[12].re, a.v[6].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_landau(a.v[12], a.v[6].re, a.v[9].re).into() }] },
  F { id: 240, path: "qcd::gluon", name: "propagator", params: &[12, 6, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re).into() }] },
  F { id: 241, path: "qcd::gluon", name: "dressing_crossed_inv_landau", params: &[12, 6, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_inv_landau(a.v[12].re, a.v[6].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_inv_landau(a.v[12], a.v[6].re, a.v[9].re).into() }] },
  F { id: 242, path: "qcd::gluon", name: "dressing_crossed_inv", params: &[12, 6, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_inv(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_inv(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re).into() }] },
  F { id: 243, path: "qcd::gluon", name: "dressing_crossed_landau", params: &[12, 6, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_landau(a.v[12].re, a.v[6].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_landau(a.v[12], a.v[6].re, a.v[9].re).into() }] },
  F { id: 244, path: "qcd::gluon", name: "dressing_crossed", params: &[12, 6, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re).into() }] },
  F { id: 245, path: "qcd::gluon", name: "propagator_crossed_landau", params: &[12, 6, 9], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_crossed_landau(a.v[12].re, a.v[6].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_crossed_landau(a.v[12], a.v[6].re, a.v[9].re).into() }] },
  F { id: 246, path: "qcd::gluon", name: "propagator_crossed", params: &[12, 6, 9, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_crossed(a.v[12].re, a.v[6].re, a.v[9].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_crossed(a.v[12], a.v[6].re, a.v[9].re, a.v[11].re).into() }] },
  F { id: 247, path: "qcd::gluon", name: "dressing_inv_landau_w_field_config", params: &[12, 9], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_inv_landau_w_field_config(a.v[12].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_inv_landau_w_field_config(a.v[12], a.v[9].re, &a.cfg).into() }] },
  F { id: 248, path: "qcd::gluon", name: "dressing_inv_w_field_config", params: &[12, 9, 11], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_inv_w_field_config(a.v[12].re, a.v[9].re, a.v[11].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_inv_w_field_config(a.v[12], a.v[9].re, a.v[11].re, &a.cfg).into() }] },
  F { id: 249, path: "qcd::gluon", name: "dressing_landau_w_field_config", params: &[12, 9], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_landau_w_field_config(a.v[12].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_landau_w_field_config(a.v[12], a.v[9].re, &a.cfg).into() }] },
  F { id: 250, path: "qcd::gluon", name: "dressing_w_field_config", params: &[12, 9, 11], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_w_field_config(a.v[12].re, a.v[9].re, a.v[11].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_w_field_config(a.v[12], a.v[9].re, a.v[11].re, &a.cfg).into() }] },
  F { id: 251, path: "qcd::gluon", name: "propagator_landau_w_field_config", params: &[12, 9], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_landau_w_field_config(a.v[12].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_landau_w_field_config(a.v[12], a.v[9].re, &a.cfg).into() }] },
  F { id: 252, path: "qcd::gluon", name: "propagator_w_field_config", params: &[12, 9, 11], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_w_field_config(a.v[12].re, a.v[9].re, a.v[11].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_w_field_config(a.v[12], a.v[9].re, a.v[11].re, &a.cfg).into() }] },
  F { id: 253, path: "qcd::gluon", name: "dressing_crossed_inv_landau_w_field_config", params: &[12, 9], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a.v[12].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_inv_landau_w_field_config(a.v[12], a.v[9].re, &a.cfg).into() }] },
  F { id: 254, path: "qcd::gluon", name: "dressing_crossed_inv_w_field_config", params: &[12, 9, 11], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_inv_w_field_config(a.v[12].re, a.v[9].re, a.v[11].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_inv_w_field_config(a.v[12], a.v[9].re, a.v[11].re, &a.cfg).into() }] },
  F { id: 255, path: "qcd::gluon", name: "dressing_crossed_landau_w_field_config", params: &[12, 9], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_landau_w_field_config(a.v[12].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_landau_w_field_config(a.v[12], a.v[9].re, &a.cfg).into() }] },
  F { id: 256, path: "qcd::gluon", name: "dressing_crossed_w_field_config", params: &[12, 9, 11], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::dressing_crossed_w_field_config(a.v[12].re, a.v[9].re, a.v[11].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::dressing_crossed_w_field_config(a.v[12], a.v[9].re, a.v[11].re, &a.cfg).into() }] },
  F { id: 257, path: "qcd::gluon", name: "propagator_crossed_landau_w_field_config", params: &[12, 9], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_crossed_landau_w_field_config(a.v[12].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_crossed_landau_w_field_config(a.v[12], a.v[9].re, &a.cfg).into() }] },
  F { id: 258, path: "qcd::gluon", name: "propagator_crossed_w_field_config", params: &[12, 9, 11], integral: false, cfg: true, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::gluon::propagator_crossed_w_field_config(a.v[12].re, a.v[9].re, a.v[11].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::gluon::propagator_crossed_w_field_config(a.v[12], a.v[9].re, a.v[11].re, &a.cfg).into() }] },
  F { id: 259, path: "qcd::thermal::gluon", name: "dressing_l_inv_landau", params: &[1, 2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 260, path: "qcd::thermal::gluon", name: "dressing_t_inv_landau", params: &[1, 2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 261, path: "qcd::thermal::gluon", name: "dressing_l_landau", params: &[1, 2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 262, path: "qcd::thermal::gluon", name: "dressing_t_landau", params: &[1, 2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 263, path: "qcd::thermal::gluon", name: "propagator_l_landau", params: &[1, 2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 264, path: "qcd::thermal::gluon", name: "propagator_t_landau", params: &[1, 2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 265, path: "qcd::thermal::gluon", name: "dressing_l_inv_zero_temp_landau", params: &[1, 2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 266, path: "qcd::thermal::gluon", name: "dressing_t_inv_zero_temp_landau", params: &[1, 2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 267, path: "qcd::thermal::gluon", name: "dressing_l_zero_temp_landau", params: &[1, 2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_zero_temp_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 268, path: "qcd::thermal::gluon", name: "dressing_t_zero_temp_landau", params: &[1, 2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_zero_temp_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 269, path: "qcd::thermal::gluon", name: "propagator_l_zero_temp_landau", params: &[1, 2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_zero_temp_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 270, path: "qcd::thermal::gluon", name: "propagator_t_zero_temp_landau", params: &[1, 2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_zero_temp_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_zero_temp_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 271, path: "qcd::thermal::gluon", name: "dressing_l_inv_landau_w_field_config", params: &[1, 2, 7, 8, 9], integral: false, cfg: true, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.v[1], a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 2, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.v[1].re, a.v[2], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 3, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(a.v[1], a.v[2], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 272, path: "qcd::thermal::gluon", name: "dressing_t_inv_landau_w_field_config", params: &[1, 2, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(a.v[1], a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 273, path: "qcd::thermal::gluon", name: "dressing_l_landau_w_field_config", params: &[1, 2, 7, 8, 9], integral: false, cfg: true, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.v[1], a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 2, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.v[1].re, a.v[2], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 3, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_landau_w_field_config(a.v[1], a.v[2], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 274, path: "qcd::thermal::gluon", name: "dressing_t_landau_w_field_config", params: &[1, 2, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_landau_w_field_config(a.v[1], a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 275, path: "qcd::thermal::gluon", name: "propagator_l_landau_w_field_config", params: &[1, 2, 7, 8, 9], integral: false, cfg: true, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.v[1], a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 2, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.v[1].re, a.v[2], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 3, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_landau_w_field_config(a.v[1], a.v[2], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 276, path: "qcd::thermal::gluon", name: "propagator_t_landau_w_field_config", params: &[1, 2, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_landau_w_field_config(a.v[1], a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 277, path: "qcd::thermal::gluon", name: "dressing_l_inv_zero_temp_landau_w_field_config", params: &[1, 2, 8, 9], integral: false, cfg: true, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[1], a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 2, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[1].re, a.v[2], a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 3, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[1], a.v[2], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 278, path: "qcd::thermal::gluon", name: "dressing_t_inv_zero_temp_landau_w_field_config", params: &[1, 2, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.v[1], a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 279, path: "qcd::thermal::gluon", name: "dressing_l_zero_temp_landau_w_field_config", params: &[1, 2, 8, 9], integral: false, cfg: true, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[1], a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 2, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[1].re, a.v[2], a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 3, real: false, call: |a| q::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[1], a.v[2], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 280, path: "qcd::thermal::gluon", name: "dressing_t_zero_temp_landau_w_field_config", params: &[1, 2, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(a.v[1], a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 281, path: "qcd::thermal::gluon", name: "propagator_l_zero_temp_landau_w_field_config", params: &[1, 2, 8, 9], integral: false, cfg: true, gens: &[&[1], &[2]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[1], a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 2, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[1].re, a.v[2], a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 3, real: false, call: |a| q::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[1], a.v[2], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 282, path: "qcd::thermal::gluon", name: "propagator_t_zero_temp_landau_w_field_config", params: &[1, 2, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a.v[1].re, a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(a.v[1], a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 283, path: "qcd::thermal::quark", name: "charge_density_with_method", params: &[3, 7, 8], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::quark::charge_density_with_method(a.v[3].re, a.v[7].re, a.v[8].re, a.integral()).into() }] },
  F { id: 284, path: "qcd::thermal::quark", name: "charge_density", params: &[3, 7, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::quark::charge_density(a.v[3].re, a.v[7].re, a.v[8].re).into() }] },
  F { id: 285, path: "qcd::thermal::quark", name: "charge_density_zero_temp", params: &[3, 8], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::quark::charge_density_zero_temp(a.v[3].re, a.v[8].re).into() }] },
  F { id: 286, path: "qcd::thermal::quark", name: "chemical_potential_with_method", params: &[3, 7, 17], integral: true, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::quark::chemical_potential_with_method(a.v[3].re, a.v[7].re, a.v[17].re, a.integral()).into() }] },
  F { id: 287, path: "qcd::thermal::quark", name: "chemical_potential", params: &[3, 7, 17], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::quark::chemical_potential(a.v[3].re, a.v[7].re, a.v[17].re).into() }] },
  F { id: 288, path: "qcd::thermal::quark", name: "chemical_potential_zero_temp", params: &[3, 17], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::quark::chemical_potential_zero_temp(a.v[3].re, a.v[17].re).into() }] },
  F { id: 289, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_inv_landau", params: &[2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 290, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_inv_landau", params: &[2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 291, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_landau", params: &[2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 292, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_landau", params: &[2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 293, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_l_landau", params: &[2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_l_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 294, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_t_landau", params: &[2, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_t_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 295, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_inv_zero_temp_landau", params: &[2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 296, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_inv_zero_temp_landau", params: &[2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 297, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_zero_temp_landau", params: &[2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 298, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_zero_temp_landau", params: &[2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 299, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_l_zero_temp_landau", params: &[2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 300, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_t_zero_temp_landau", params: &[2, 3, 6, 8, 9], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau(a.v[2].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 301, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_inv_landau_w_field_config", params: &[2, 7, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 302, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_inv_landau_w_field_config", params: &[2, 7, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 303, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_landau_w_field_config", params: &[2, 7, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config(a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 304, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_landau_w_field_config", params: &[2, 7, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config(a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 305, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_l_landau_w_field_config", params: &[2, 7, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config(a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 306, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_t_landau_w_field_config", params: &[2, 7, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config(a.v[2].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 307, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_inv_zero_temp_landau_w_field_config", params: &[2, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 308, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_inv_zero_temp_landau_w_field_config", params: &[2, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 309, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_l_zero_temp_landau_w_field_config", params: &[2, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 310, path: "qcd::thermal::zero_matsubara::gluon", name: "dressing_t_zero_temp_landau_w_field_config", params: &[2, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config(a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 311, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_l_zero_temp_landau_w_field_config", params: &[2, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 312, path: "qcd::thermal::zero_matsubara::gluon", name: "propagator_t_zero_temp_landau_w_field_config", params: &[2, 8, 9], integral: false, cfg: true, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config(a.v[2].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 313, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_inv_landau", params: &[1, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 314, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_inv_landau", params: &[1, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 315, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_landau", params: &[1, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 316, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_landau", params: &[1, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 317, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_l_landau", params: &[1, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 318, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_t_landau", params: &[1, 3, 6, 7, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[7].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 319, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_inv_zero_temp_landau", params: &[1, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 320, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_inv_zero_temp_landau", params: &[1, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 321, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_zero_temp_landau", params: &[1, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 322, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_zero_temp_landau", params: &[1, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 323, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_l_zero_temp_landau", params: &[1, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 324, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_t_zero_temp_landau", params: &[1, 3, 6, 8, 9], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a.v[1].re, a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(a.v[1], a.v[3].re, a.v[6].re, a.v[8].re, a.v[9].re).into() }] },
  F { id: 325, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_inv_landau_w_field_config", params: &[1, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a.v[1].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(a.v[1], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 326, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_inv_landau_w_field_config", params: &[1, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a.v[1].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(a.v[1], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 327, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_landau_w_field_config", params: &[1, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a.v[1].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(a.v[1], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 328, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_landau_w_field_config", params: &[1, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a.v[1].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(a.v[1], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 329, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_l_landau_w_field_config", params: &[1, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a.v[1].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(a.v[1], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 330, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_t_landau_w_field_config", params: &[1, 7, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a.v[1].re, a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(a.v[1], a.v[7].re, a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 331, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_inv_zero_temp_landau_w_field_config", params: &[1, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[1].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(a.v[1], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 332, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_inv_zero_temp_landau_w_field_config", params: &[1, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.v[1].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(a.v[1], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 333, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_l_zero_temp_landau_w_field_config", params: &[1, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[1].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(a.v[1], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 334, path: "qcd::thermal::zero_momentum::gluon", name: "dressing_t_zero_temp_landau_w_field_config", params: &[1, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a.v[1].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(a.v[1], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 335, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_l_zero_temp_landau_w_field_config", params: &[1, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[1].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(a.v[1], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 336, path: "qcd::thermal::zero_momentum::gluon", name: "propagator_t_zero_temp_landau_w_field_config", params: &[1, 8, 9], integral: false, cfg: true, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a.v[1].re, a.v[8].re, a.v[9].re, &a.cfg).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(a.v[1], a.v[8].re, a.v[9].re, &a.cfg).into() }] },
  F { id: 337, path: "qcd::ghost", name: "dressing_inv_landau", params: &[12, 10], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::ghost::dressing_inv_landau(a.v[12].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::ghost::dressing_inv_landau(a.v[12], a.v[10].re).into() }] },
  F { id: 338, path: "qcd::ghost", name: "dressing_inv", params: &[12, 10, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::ghost::dressing_inv(a.v[12].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::ghost::dressing_inv(a.v[12], a.v[10].re, a.v[11].re).into() }] },
  F { id: 339, path: "qcd::ghost", name: "dressing_landau", params: &[12, 10], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::ghost::dressing_landau(a.v[12].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::ghost::dressing_landau(a.v[12], a.v[10].re).into() }] },
  F { id: 340, path: "qcd::ghost", name: "dressing", params: &[12, 10, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::ghost::dressing(a.v[12].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::ghost::dressing(a.v[12], a.v[10].re, a.v[11].re).into() }] },
  F { id: 341, path: "qcd::ghost", name: "propagator_landau", params: &[12, 10], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::ghost::propagator_landau(a.v[12].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::ghost::propagator_landau(a.v[12], a.v[10].re).into() }] },
  F { id: 342, path: "qcd::ghost", name: "propagator", params: &[12, 10, 11], integral: false, cfg: false, gens: &[&[12]],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::ghost::propagator(a.v[12].re, a.v[10].re, a.v[11].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::ghost::propagator(a.v[12], a.v[10].re, a.v[11].re).into() }] },
  F { id: 343, path: "qcd::thermal::ghost", name: "dressing_inv_landau", params: &[1, 2, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::ghost::dressing_inv_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::ghost::dressing_inv_landau(a.v[1], a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 344, path: "qcd::thermal::ghost", name: "dressing_landau", params: &[1, 2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::ghost::dressing_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 345, path: "qcd::thermal::ghost", name: "propagator_landau", params: &[1, 2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::ghost::propagator_landau(a.v[1].re, a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 346, path: "qcd::thermal::zero_matsubara::ghost", name: "dressing_inv_landau", params: &[2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::ghost::dressing_inv_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 347, path: "qcd::thermal::zero_matsubara::ghost", name: "dressing_landau", params: &[2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::ghost::dressing_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 348, path: "qcd::thermal::zero_matsubara::ghost", name: "propagator_landau", params: &[2, 3, 7, 10], integral: false, cfg: false, gens: &[],
     vars: &[V { mask: 0, real: true, call: |a| q::qcd::thermal::zero_matsubara::ghost::propagator_landau(a.v[2].re, a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 349, path: "qcd::thermal::zero_momentum::ghost", name: "dressing_inv_landau", params: &[1, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 350, path: "qcd::thermal::zero_momentum::ghost", name: "dressing_landau", params: &[1, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::ghost::dressing_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::ghost::dressing_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
  F { id: 351, path: "qcd::thermal::zero_momentum::ghost", name: "propagator_landau", params: &[1, 3, 7, 10], integral: false, cfg: false, gens: &[&[1]],
     vars: &[V { mask: 0, real: false, call: |a| q::qcd::thermal::zero_momentum::ghost::propagator_landau(a.v[1].re, a.v[3].re, a.v[7].re, a.v[10].re).into() },
       V { mask: 1, real: false, call: |a| q::qcd::thermal::zero_momentum::ghost::propagator_landau(a.v[1], a.v[3].re, a.v[7].re, a.v[10].re).into() }] },
];
