# @generated by gen/gen_capi.py
from qcd_sme cimport C, R
from qcd_sme cimport energy_squared as f_energy_squared
from qcd_sme cimport energy as f_energy
from qcd_sme cimport fermi_momentum as f_fermi_momentum
from qcd_sme cimport fermi_distribution as f_fermi_distribution
from qcd_sme cimport fermi_distribution_zero_temp as f_fermi_distribution_zero_temp
from qcd_sme cimport fermi_distribution_double as f_fermi_distribution_double
from qcd_sme cimport fermi_distribution_double_zero_temp as f_fermi_distribution_double_zero_temp
from qcd_sme cimport fermi_distribution_zero_chempot as f_fermi_distribution_zero_chempot
from qcd_sme cimport bose_distribution as f_bose_distribution
from qcd_sme cimport bose_distribution_zero_chempot as f_bose_distribution_zero_chempot
from qcd_sme cimport statistic_distribution_exponential as f_statistic_distribution_exponential
from qcd_sme cimport statistic_distribution_exponential_zero_chempot as f_statistic_distribution_exponential_zero_chempot
from qcd_sme cimport oneloop__ghost__g_sep as f_oneloop__ghost__g_sep
from qcd_sme cimport oneloop__ghost__g as f_oneloop__ghost__g
from qcd_sme cimport oneloop__ghost__g_sep__complex as f_oneloop__ghost__g_sep__complex
from qcd_sme cimport oneloop__ghost__g__complex as f_oneloop__ghost__g__complex
from qcd_sme cimport oneloop__ghost__g_xi_sep as f_oneloop__ghost__g_xi_sep
from qcd_sme cimport oneloop__ghost__g_xi as f_oneloop__ghost__g_xi
from qcd_sme cimport oneloop__ghost__g_xi_sep__complex as f_oneloop__ghost__g_xi_sep__complex
from qcd_sme cimport oneloop__ghost__g_xi__complex as f_oneloop__ghost__g_xi__complex
from qcd_sme cimport ym__oneloop__ghost__dressing_inv_landau_sep as f_ym__oneloop__ghost__dressing_inv_landau_sep
from qcd_sme cimport ym__oneloop__ghost__dressing_inv_landau_sep__complex as f_ym__oneloop__ghost__dressing_inv_landau_sep__complex
from qcd_sme cimport ym__oneloop__ghost__dressing_inv_sep as f_ym__oneloop__ghost__dressing_inv_sep
from qcd_sme cimport ym__oneloop__ghost__dressing_inv_sep__complex as f_ym__oneloop__ghost__dressing_inv_sep__complex
from qcd_sme cimport oneloop__gluon__f_sep as f_oneloop__gluon__f_sep
from qcd_sme cimport oneloop__gluon__f as f_oneloop__gluon__f
from qcd_sme cimport oneloop__gluon__f_sep__complex as f_oneloop__gluon__f_sep__complex
from qcd_sme cimport oneloop__gluon__f__complex as f_oneloop__gluon__f__complex
from qcd_sme cimport oneloop__gluon__f_xi_sep as f_oneloop__gluon__f_xi_sep
from qcd_sme cimport oneloop__gluon__f_xi as f_oneloop__gluon__f_xi
from qcd_sme cimport oneloop__gluon__f_xi_sep__complex as f_oneloop__gluon__f_xi_sep__complex
from qcd_sme cimport oneloop__gluon__f_xi__complex as f_oneloop__gluon__f_xi__complex
from qcd_sme cimport oneloop__gluon__f_q as f_oneloop__gluon__f_q
from qcd_sme cimport oneloop__gluon__f_q__complex as f_oneloop__gluon__f_q__complex
from qcd_sme cimport oneloop__gluon__f_q_crossed as f_oneloop__gluon__f_q_crossed
from qcd_sme cimport oneloop__gluon__f_q_crossed__complex as f_oneloop__gluon__f_q_crossed__complex
from qcd_sme cimport ym__oneloop__gluon__dressing_inv_landau_sep as f_ym__oneloop__gluon__dressing_inv_landau_sep
from qcd_sme cimport ym__oneloop__gluon__dressing_inv_landau_sep__complex as f_ym__oneloop__gluon__dressing_inv_landau_sep__complex
from qcd_sme cimport ym__oneloop__gluon__dressing_inv_sep as f_ym__oneloop__gluon__dressing_inv_sep
from qcd_sme cimport ym__oneloop__gluon__dressing_inv_sep__complex as f_ym__oneloop__gluon__dressing_inv_sep__complex
from qcd_sme cimport oneloop__tlog as f_oneloop__tlog
from qcd_sme cimport oneloop__tlog_same_mass as f_oneloop__tlog_same_mass
from qcd_sme cimport oneloop__tlog_zero_mass as f_oneloop__tlog_zero_mass
from qcd_sme cimport oneloop__tlog_l as f_oneloop__tlog_l
from qcd_sme cimport oneloop__tlog_l_same_mass as f_oneloop__tlog_l_same_mass
from qcd_sme cimport oneloop__tlog_l_zero_mass as f_oneloop__tlog_l_zero_mass
from qcd_sme cimport oneloop__tlog_t as f_oneloop__tlog_t
from qcd_sme cimport oneloop__tlog_t_same_mass as f_oneloop__tlog_t_same_mass
from qcd_sme cimport oneloop__tlog_t_zero_mass as f_oneloop__tlog_t_zero_mass
from qcd_sme cimport oneloop__j_m_i as f_oneloop__j_m_i
from qcd_sme cimport oneloop__j_0_i as f_oneloop__j_0_i
from qcd_sme cimport oneloop__j_m_l_i as f_oneloop__j_m_l_i
from qcd_sme cimport oneloop__j_0_l_i as f_oneloop__j_0_l_i
from qcd_sme cimport oneloop__j_m_t_i as f_oneloop__j_m_t_i
from qcd_sme cimport oneloop__j_0_t_i as f_oneloop__j_0_t_i
from qcd_sme cimport oneloop__i_m_m_i as f_oneloop__i_m_m_i
from qcd_sme cimport oneloop__i_m_m_i_same_mass as f_oneloop__i_m_m_i_same_mass
from qcd_sme cimport oneloop__i_m_0_i as f_oneloop__i_m_0_i
from qcd_sme cimport oneloop__i_0_0_i as f_oneloop__i_0_0_i
from qcd_sme cimport oneloop__i_m_m_l_i as f_oneloop__i_m_m_l_i
from qcd_sme cimport oneloop__i_m_m_l_i_same_mass as f_oneloop__i_m_m_l_i_same_mass
from qcd_sme cimport oneloop__i_m_0_l_i as f_oneloop__i_m_0_l_i
from qcd_sme cimport oneloop__i_0_0_l_i as f_oneloop__i_0_0_l_i
from qcd_sme cimport oneloop__i_m_m_t_i as f_oneloop__i_m_m_t_i
from qcd_sme cimport oneloop__i_m_m_t_i_same_mass as f_oneloop__i_m_m_t_i_same_mass
from qcd_sme cimport oneloop__i_m_0_t_i as f_oneloop__i_m_0_t_i
from qcd_sme cimport oneloop__i_0_0_t_i as f_oneloop__i_0_0_t_i
from qcd_sme cimport oneloop__d_j_m_i as f_oneloop__d_j_m_i
from qcd_sme cimport oneloop__d_j_0_i as f_oneloop__d_j_0_i
from qcd_sme cimport oneloop__d2_j_m_i as f_oneloop__d2_j_m_i
from qcd_sme cimport oneloop__d2_j_0_i as f_oneloop__d2_j_0_i
from qcd_sme cimport oneloop__d_j_m_l_i as f_oneloop__d_j_m_l_i
from qcd_sme cimport oneloop__d_j_0_l_i as f_oneloop__d_j_0_l_i
from qcd_sme cimport oneloop__d2_j_m_l_i as f_oneloop__d2_j_m_l_i
from qcd_sme cimport oneloop__d2_j_0_l_i as f_oneloop__d2_j_0_l_i
from qcd_sme cimport oneloop__d_j_m_t_i as f_oneloop__d_j_m_t_i
from qcd_sme cimport oneloop__d_j_0_t_i as f_oneloop__d_j_0_t_i
from qcd_sme cimport oneloop__d2_j_m_t_i as f_oneloop__d2_j_m_t_i
from qcd_sme cimport oneloop__d2_j_0_t_i as f_oneloop__d2_j_0_t_i
from qcd_sme cimport oneloop__d_i_m_m_i as f_oneloop__d_i_m_m_i
from qcd_sme cimport oneloop__d_i_m_m_i_same_mass as f_oneloop__d_i_m_m_i_same_mass
from qcd_sme cimport oneloop__d_i_m_0_i as f_oneloop__d_i_m_0_i
from qcd_sme cimport oneloop__d_i_0_0_i as f_oneloop__d_i_0_0_i
from qcd_sme cimport oneloop__d_i_m_m_l_i as f_oneloop__d_i_m_m_l_i
from qcd_sme cimport oneloop__d_i_m_m_l_i_same_mass as f_oneloop__d_i_m_m_l_i_same_mass
from qcd_sme cimport oneloop__d_i_m_0_l_i as f_oneloop__d_i_m_0_l_i
from qcd_sme cimport oneloop__d_i_0_0_l_i as f_oneloop__d_i_0_0_l_i
from qcd_sme cimport oneloop__d_i_m_m_t_i as f_oneloop__d_i_m_m_t_i
from qcd_sme cimport oneloop__d_i_m_m_t_i_same_mass as f_oneloop__d_i_m_m_t_i_same_mass
from qcd_sme cimport oneloop__d_i_m_0_t_i as f_oneloop__d_i_m_0_t_i
from qcd_sme cimport oneloop__d_i_0_0_t_i as f_oneloop__d_i_0_0_t_i
from qcd_sme cimport oneloop__ghost__self_energy_thermal_part_landau_i as f_oneloop__ghost__self_energy_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i as f_oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i as f_oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i
from qcd_sme cimport oneloop__gluon__polarization_glue_l_thermal_part_landau_i as f_oneloop__gluon__polarization_glue_l_thermal_part_landau_i
from qcd_sme cimport oneloop__gluon__polarization_glue_t_thermal_part_landau_i as f_oneloop__gluon__polarization_glue_t_thermal_part_landau_i
from qcd_sme cimport oneloop__gluon__polarization_quark_l_thermal_part_landau_i as f_oneloop__gluon__polarization_quark_l_thermal_part_landau_i
from qcd_sme cimport oneloop__gluon__polarization_quark_t_thermal_part_landau_i as f_oneloop__gluon__polarization_quark_t_thermal_part_landau_i
from qcd_sme cimport oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i as f_oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i
from qcd_sme cimport oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i as f_oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i
from qcd_sme cimport oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i as f_oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i as f_oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i as f_oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i as f_oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i as f_oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i
from qcd_sme cimport oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i as f_oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i
from qcd_sme cimport oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i as f_oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i as f_oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i as f_oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i as f_oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i
from qcd_sme cimport oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i as f_oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i
from qcd_sme cimport oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i as f_oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i
from qcd_sme cimport oneloop__zero_matsubara__tlog as f_oneloop__zero_matsubara__tlog
from qcd_sme cimport oneloop__zero_matsubara__tlog_same_mass as f_oneloop__zero_matsubara__tlog_same_mass
from qcd_sme cimport oneloop__zero_matsubara__tlog_zero_mass as f_oneloop__zero_matsubara__tlog_zero_mass
from qcd_sme cimport oneloop__zero_matsubara__tlog_t as f_oneloop__zero_matsubara__tlog_t
from qcd_sme cimport oneloop__zero_matsubara__tlog_t_same_mass as f_oneloop__zero_matsubara__tlog_t_same_mass
from qcd_sme cimport oneloop__zero_matsubara__tlog_t_zero_mass as f_oneloop__zero_matsubara__tlog_t_zero_mass
from qcd_sme cimport oneloop__zero_matsubara__i_m_m_i as f_oneloop__zero_matsubara__i_m_m_i
from qcd_sme cimport oneloop__zero_matsubara__i_m_m_i_same_mass as f_oneloop__zero_matsubara__i_m_m_i_same_mass
from qcd_sme cimport oneloop__zero_matsubara__i_m_0_i as f_oneloop__zero_matsubara__i_m_0_i
from qcd_sme cimport oneloop__zero_matsubara__i_0_0_i as f_oneloop__zero_matsubara__i_0_0_i
from qcd_sme cimport oneloop__zero_matsubara__i_m_m_l_i as f_oneloop__zero_matsubara__i_m_m_l_i
from qcd_sme cimport oneloop__zero_matsubara__i_m_m_l_i_same_mass as f_oneloop__zero_matsubara__i_m_m_l_i_same_mass
from qcd_sme cimport oneloop__zero_matsubara__i_m_0_l_i as f_oneloop__zero_matsubara__i_m_0_l_i
from qcd_sme cimport oneloop__zero_matsubara__i_0_0_l_i as f_oneloop__zero_matsubara__i_0_0_l_i
from qcd_sme cimport oneloop__zero_matsubara__i_m_m_t_i as f_oneloop__zero_matsubara__i_m_m_t_i
from qcd_sme cimport oneloop__zero_matsubara__i_m_m_t_i_same_mass as f_oneloop__zero_matsubara__i_m_m_t_i_same_mass
from qcd_sme cimport oneloop__zero_matsubara__i_m_0_t_i as f_oneloop__zero_matsubara__i_m_0_t_i
from qcd_sme cimport oneloop__zero_matsubara__i_0_0_t_i as f_oneloop__zero_matsubara__i_0_0_t_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_m_i as f_oneloop__zero_matsubara__d_i_m_m_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_m_i_same_mass as f_oneloop__zero_matsubara__d_i_m_m_i_same_mass
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_0_i as f_oneloop__zero_matsubara__d_i_m_0_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_0_0_i as f_oneloop__zero_matsubara__d_i_0_0_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_m_l_i as f_oneloop__zero_matsubara__d_i_m_m_l_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_m_l_i_same_mass as f_oneloop__zero_matsubara__d_i_m_m_l_i_same_mass
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_0_l_i as f_oneloop__zero_matsubara__d_i_m_0_l_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_0_0_l_i as f_oneloop__zero_matsubara__d_i_0_0_l_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_m_t_i as f_oneloop__zero_matsubara__d_i_m_m_t_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_m_t_i_same_mass as f_oneloop__zero_matsubara__d_i_m_m_t_i_same_mass
from qcd_sme cimport oneloop__zero_matsubara__d_i_m_0_t_i as f_oneloop__zero_matsubara__d_i_m_0_t_i
from qcd_sme cimport oneloop__zero_matsubara__d_i_0_0_t_i as f_oneloop__zero_matsubara__d_i_0_0_t_i
from qcd_sme cimport oneloop__zero_momentum__i_m_m_i as f_oneloop__zero_momentum__i_m_m_i
from qcd_sme cimport oneloop__zero_momentum__i_m_m_i_same_mass as f_oneloop__zero_momentum__i_m_m_i_same_mass
from qcd_sme cimport oneloop__zero_momentum__i_m_0_i as f_oneloop__zero_momentum__i_m_0_i
from qcd_sme cimport oneloop__zero_momentum__i_0_0_i as f_oneloop__zero_momentum__i_0_0_i
from qcd_sme cimport oneloop__zero_momentum__i_m_m_l_i as f_oneloop__zero_momentum__i_m_m_l_i
from qcd_sme cimport oneloop__zero_momentum__i_m_m_l_i_same_mass as f_oneloop__zero_momentum__i_m_m_l_i_same_mass
from qcd_sme cimport oneloop__zero_momentum__i_m_0_l_i as f_oneloop__zero_momentum__i_m_0_l_i
from qcd_sme cimport oneloop__zero_momentum__i_0_0_l_i as f_oneloop__zero_momentum__i_0_0_l_i
from qcd_sme cimport oneloop__zero_momentum__i_m_m_t_i as f_oneloop__zero_momentum__i_m_m_t_i
from qcd_sme cimport oneloop__zero_momentum__i_m_m_t_i_same_mass as f_oneloop__zero_momentum__i_m_m_t_i_same_mass
from qcd_sme cimport oneloop__zero_momentum__i_m_0_t_i as f_oneloop__zero_momentum__i_m_0_t_i
from qcd_sme cimport oneloop__zero_momentum__i_0_0_t_i as f_oneloop__zero_momentum__i_0_0_t_i
from qcd_sme cimport oneloop__zero_momentum__d_i_m_m_i as f_oneloop__zero_momentum__d_i_m_m_i
from qcd_sme cimport oneloop__zero_momentum__d_i_m_m_i_same_mass as f_oneloop__zero_momentum__d_i_m_m_i_same_mass
from qcd_sme cimport oneloop__zero_momentum__d_i_m_0_i as f_oneloop__zero_momentum__d_i_m_0_i
from qcd_sme cimport oneloop__zero_momentum__d_i_0_0_i as f_oneloop__zero_momentum__d_i_0_0_i
from qcd_sme cimport oneloop__zero_momentum__d_i_m_m_l_i as f_oneloop__zero_momentum__d_i_m_m_l_i
from qcd_sme cimport oneloop__zero_momentum__d_i_m_m_l_i_same_mass as f_oneloop__zero_momentum__d_i_m_m_l_i_same_mass
from qcd_sme cimport oneloop__zero_momentum__d_i_m_0_l_i as f_oneloop__zero_momentum__d_i_m_0_l_i
from qcd_sme cimport oneloop__zero_momentum__d_i_0_0_l_i as f_oneloop__zero_momentum__d_i_0_0_l_i
from qcd_sme cimport oneloop__zero_momentum__d_i_m_m_t_i as f_oneloop__zero_momentum__d_i_m_m_t_i
from qcd_sme cimport oneloop__zero_momentum__d_i_m_m_t_i_same_mass as f_oneloop__zero_momentum__d_i_m_m_t_i_same_mass
from qcd_sme cimport oneloop__zero_momentum__d_i_m_0_t_i as f_oneloop__zero_momentum__d_i_m_0_t_i
from qcd_sme cimport oneloop__zero_momentum__d_i_0_0_t_i as f_oneloop__zero_momentum__d_i_0_0_t_i
from qcd_sme cimport ym__ghost__dressing_inv_landau as f_ym__ghost__dressing_inv_landau
from qcd_sme cimport ym__ghost__dressing_inv_landau__complex as f_ym__ghost__dressing_inv_landau__complex
from qcd_sme cimport ym__ghost__dressing_inv as f_ym__ghost__dressing_inv
from qcd_sme cimport ym__ghost__dressing_inv__complex as f_ym__ghost__dressing_inv__complex
from qcd_sme cimport ym__ghost__dressing_landau as f_ym__ghost__dressing_landau
from qcd_sme cimport ym__ghost__dressing_landau__complex as f_ym__ghost__dressing_landau__complex
from qcd_sme cimport ym__ghost__dressing as f_ym__ghost__dressing
from qcd_sme cimport ym__ghost__dressing__complex as f_ym__ghost__dressing__complex
from qcd_sme cimport ym__ghost__propagator_landau as f_ym__ghost__propagator_landau
from qcd_sme cimport ym__ghost__propagator_landau__complex as f_ym__ghost__propagator_landau__complex
from qcd_sme cimport ym__ghost__propagator as f_ym__ghost__propagator
from qcd_sme cimport ym__ghost__propagator__complex as f_ym__ghost__propagator__complex
from qcd_sme cimport ym__gluon__dressing_inv_landau as f_ym__gluon__dressing_inv_landau
from qcd_sme cimport ym__gluon__dressing_inv_landau__complex as f_ym__gluon__dressing_inv_landau__complex
from qcd_sme cimport ym__gluon__dressing_inv as f_ym__gluon__dressing_inv
from qcd_sme cimport ym__gluon__dressing_inv__complex as f_ym__gluon__dressing_inv__complex
from qcd_sme cimport ym__gluon__dressing_landau as f_ym__gluon__dressing_landau
from qcd_sme cimport ym__gluon__dressing_landau__complex as f_ym__gluon__dressing_landau__complex
from qcd_sme cimport ym__gluon__dressing as f_ym__gluon__dressing
from qcd_sme cimport ym__gluon__dressing__complex as f_ym__gluon__dressing__complex
from qcd_sme cimport ym__gluon__propagator_landau as f_ym__gluon__propagator_landau
from qcd_sme cimport ym__gluon__propagator_landau__complex as f_ym__gluon__propagator_landau__complex
from qcd_sme cimport ym__gluon__propagator as f_ym__gluon__propagator
from qcd_sme cimport ym__gluon__propagator__complex as f_ym__gluon__propagator__complex
from qcd_sme cimport qcd__ghost__dressing_inv_landau as f_qcd__ghost__dressing_inv_landau
from qcd_sme cimport qcd__ghost__dressing_inv_landau__complex as f_qcd__ghost__dressing_inv_landau__complex
from qcd_sme cimport qcd__ghost__dressing_inv as f_qcd__ghost__dressing_inv
from qcd_sme cimport qcd__ghost__dressing_inv__complex as f_qcd__ghost__dressing_inv__complex
from qcd_sme cimport qcd__ghost__dressing_landau as f_qcd__ghost__dressing_landau
from qcd_sme cimport qcd__ghost__dressing_landau__complex as f_qcd__ghost__dressing_landau__complex
from qcd_sme cimport qcd__ghost__dressing as f_qcd__ghost__dressing
from qcd_sme cimport qcd__ghost__dressing__complex as f_qcd__ghost__dressing__complex
from qcd_sme cimport qcd__gluon__dressing_inv_landau as f_qcd__gluon__dressing_inv_landau
from qcd_sme cimport qcd__gluon__dressing_inv_landau__complex as f_qcd__gluon__dressing_inv_landau__complex
from qcd_sme cimport qcd__gluon__dressing_inv as f_qcd__gluon__dressing_inv
from qcd_sme cimport qcd__gluon__dressing_inv__complex as f_qcd__gluon__dressing_inv__complex
from qcd_sme cimport qcd__gluon__dressing_landau as f_qcd__gluon__dressing_landau
from qcd_sme cimport qcd__gluon__dressing_landau__complex as f_qcd__gluon__dressing_landau__complex
from qcd_sme cimport qcd__gluon__dressing as f_qcd__gluon__dressing
from qcd_sme cimport qcd__gluon__dressing__complex as f_qcd__gluon__dressing__complex
from qcd_sme cimport qcd__gluon__propagator_landau as f_qcd__gluon__propagator_landau
from qcd_sme cimport qcd__gluon__propagator_landau__complex as f_qcd__gluon__propagator_landau__complex
from qcd_sme cimport qcd__gluon__propagator as f_qcd__gluon__propagator
from qcd_sme cimport qcd__gluon__propagator__complex as f_qcd__gluon__propagator__complex
from qcd_sme cimport qcd__gluon__dressing_crossed_inv_landau as f_qcd__gluon__dressing_crossed_inv_landau
from qcd_sme cimport qcd__gluon__dressing_crossed_inv_landau__complex as f_qcd__gluon__dressing_crossed_inv_landau__complex
from qcd_sme cimport qcd__gluon__dressing_crossed_inv as f_qcd__gluon__dressing_crossed_inv
from qcd_sme cimport qcd__gluon__dressing_crossed_inv__complex as f_qcd__gluon__dressing_crossed_inv__complex
from qcd_sme cimport qcd__gluon__dressing_crossed_landau as f_qcd__gluon__dressing_crossed_landau
from qcd_sme cimport qcd__gluon__dressing_crossed_landau__complex as f_qcd__gluon__dressing_crossed_landau__complex
from qcd_sme cimport qcd__gluon__dressing_crossed as f_qcd__gluon__dressing_crossed
from qcd_sme cimport qcd__gluon__dressing_crossed__complex as f_qcd__gluon__dressing_crossed__complex
from qcd_sme cimport qcd__gluon__propagator_crossed_landau as f_qcd__gluon__propagator_crossed_landau
from qcd_sme cimport qcd__gluon__propagator_crossed_landau__complex as f_qcd__gluon__propagator_crossed_landau__complex
from qcd_sme cimport qcd__gluon__propagator_crossed as f_qcd__gluon__propagator_crossed
from qcd_sme cimport qcd__gluon__propagator_crossed__complex as f_qcd__gluon__propagator_crossed__complex
from qcd_sme cimport get_number_of_colors as fg_number_of_colors
from qcd_sme cimport set_number_of_colors as fs_number_of_colors
from qcd_sme cimport get_number_of_fermions as fg_number_of_fermions
from qcd_sme cimport set_number_of_fermions as fs_number_of_fermions
from qcd_sme cimport get_default_quark_mass as fg_default_quark_mass
from qcd_sme cimport set_default_quark_mass as fs_default_quark_mass
from qcd_sme cimport get_default_tol_integral as fg_default_tol_integral
from qcd_sme cimport set_default_tol_integral as fs_default_tol_integral
from qcd_sme cimport get_default_max_iter_integral as fg_default_max_iter_integral
from qcd_sme cimport set_default_max_iter_integral as fs_default_max_iter_integral
from qcd_sme cimport get_matsubara_reg as fg_matsubara_reg
from qcd_sme cimport set_matsubara_reg as fs_matsubara_reg

cdef C cc(double a, double b):
    cdef C z
    z.re = a
    z.im = b
    return z

def w0(v):
    cdef R x = f_energy_squared(v[4], v[6])
    return (x, 0.)

def w1(v):
    cdef R x = f_energy(v[4], v[6])
    return (x, 0.)

def w2(v):
    cdef R x = f_fermi_momentum(v[6], v[16])
    return (x, 0.)

def w3(v):
    cdef R x = f_fermi_distribution(v[26], v[14], v[16])
    return (x, 0.)

def w4(v):
    cdef R x = f_fermi_distribution_zero_temp(v[26], v[16])
    return (x, 0.)

def w5(v):
    cdef R x = f_fermi_distribution_double(v[26], v[14], v[16])
    return (x, 0.)

def w6(v):
    cdef R x = f_fermi_distribution_double_zero_temp(v[26], v[16])
    return (x, 0.)

def w7(v):
    cdef R x = f_fermi_distribution_zero_chempot(v[26], v[14])
    return (x, 0.)

def w8(v):
    cdef R x = f_bose_distribution(v[26], v[14], v[16])
    return (x, 0.)

def w9(v):
    cdef R x = f_bose_distribution_zero_chempot(v[26], v[14])
    return (x, 0.)

def w10(v):
    cdef R x = f_statistic_distribution_exponential(v[26], v[14], v[16])
    return (x, 0.)

def w11(v):
    cdef R x = f_statistic_distribution_exponential_zero_chempot(v[26], v[14])
    return (x, 0.)

def w12(v):
    cdef R x = f_oneloop__ghost__g_sep(v[24], v[30], v[32])
    return (x, 0.)

def w13(v):
    cdef R x = f_oneloop__ghost__g(v[24])
    return (x, 0.)

def w14(v):
    cdef C x = f_oneloop__ghost__g_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]))
    return (x.re, x.im)

def w15(v):
    cdef C x = f_oneloop__ghost__g__complex(cc(v[24], v[25]))
    return (x.re, x.im)

def w16(v):
    cdef R x = f_oneloop__ghost__g_xi_sep(v[30])
    return (x, 0.)

def w17(v):
    cdef R x = f_oneloop__ghost__g_xi(v[24])
    return (x, 0.)

def w18(v):
    cdef C x = f_oneloop__ghost__g_xi_sep__complex(cc(v[30], v[31]))
    return (x.re, x.im)

def w19(v):
    cdef C x = f_oneloop__ghost__g_xi__complex(cc(v[24], v[25]))
    return (x.re, x.im)

def w20(v):
    cdef R x = f_ym__oneloop__ghost__dressing_inv_landau_sep(v[24], v[30], v[32], v[20])
    return (x, 0.)

def w21(v):
    cdef C x = f_ym__oneloop__ghost__dressing_inv_landau_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]), v[20])
    return (x.re, x.im)

def w22(v):
    cdef R x = f_ym__oneloop__ghost__dressing_inv_sep(v[24], v[30], v[32], v[20], v[22])
    return (x, 0.)

def w23(v):
    cdef C x = f_ym__oneloop__ghost__dressing_inv_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]), v[20], v[22])
    return (x.re, x.im)

def w24(v):
    cdef R x = f_oneloop__gluon__f_sep(v[24], v[30], v[32])
    return (x, 0.)

def w25(v):
    cdef R x = f_oneloop__gluon__f(v[24])
    return (x, 0.)

def w26(v):
    cdef C x = f_oneloop__gluon__f_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]))
    return (x.re, x.im)

def w27(v):
    cdef C x = f_oneloop__gluon__f__complex(cc(v[24], v[25]))
    return (x.re, x.im)

def w28(v):
    cdef R x = f_oneloop__gluon__f_xi_sep(v[24], v[30], v[32])
    return (x, 0.)

def w29(v):
    cdef R x = f_oneloop__gluon__f_xi(v[24])
    return (x, 0.)

def w30(v):
    cdef C x = f_oneloop__gluon__f_xi_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]))
    return (x.re, x.im)

def w31(v):
    cdef C x = f_oneloop__gluon__f_xi__complex(cc(v[24], v[25]))
    return (x.re, x.im)

def w32(v):
    cdef R x = f_oneloop__gluon__f_q(v[24])
    return (x, 0.)

def w33(v):
    cdef C x = f_oneloop__gluon__f_q__complex(cc(v[24], v[25]))
    return (x.re, x.im)

def w34(v):
    cdef R x = f_oneloop__gluon__f_q_crossed(v[24])
    return (x, 0.)

def w35(v):
    cdef C x = f_oneloop__gluon__f_q_crossed__complex(cc(v[24], v[25]))
    return (x.re, x.im)

def w36(v):
    cdef R x = f_ym__oneloop__gluon__dressing_inv_landau_sep(v[24], v[30], v[32], v[18])
    return (x, 0.)

def w37(v):
    cdef C x = f_ym__oneloop__gluon__dressing_inv_landau_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]), v[18])
    return (x.re, x.im)

def w38(v):
    cdef R x = f_ym__oneloop__gluon__dressing_inv_sep(v[24], v[30], v[32], v[18], v[22])
    return (x, 0.)

def w39(v):
    cdef C x = f_ym__oneloop__gluon__dressing_inv_sep__complex(cc(v[24], v[25]), cc(v[30], v[31]), cc(v[32], v[33]), v[18], v[22])
    return (x.re, x.im)

def w40(v):
    cdef C x = f_oneloop__tlog(v[0], v[2], v[4], v[26], v[28])
    return (x.re, x.im)

def w41(v):
    cdef C x = f_oneloop__tlog_same_mass(v[0], v[2], v[4], v[26])
    return (x.re, x.im)

def w42(v):
    cdef C x = f_oneloop__tlog_zero_mass(v[0], v[2], v[4])
    return (x.re, x.im)

def w43(v):
    cdef C x = f_oneloop__tlog_l(v[0], v[2], v[4], v[26], v[28])
    return (x.re, x.im)

def w44(v):
    cdef C x = f_oneloop__tlog_l_same_mass(v[0], v[2], v[4], v[26])
    return (x.re, x.im)

def w45(v):
    cdef C x = f_oneloop__tlog_l_zero_mass(v[0], v[2], v[4])
    return (x.re, x.im)

def w46(v):
    cdef C x = f_oneloop__tlog_t(v[0], v[2], v[4], v[26], v[28])
    return (x.re, x.im)

def w47(v):
    cdef C x = f_oneloop__tlog_t_same_mass(v[0], v[2], v[4], v[26])
    return (x.re, x.im)

def w48(v):
    cdef C x = f_oneloop__tlog_t_zero_mass(v[0], v[2], v[4])
    return (x.re, x.im)

def w49(v):
    cdef R x = f_oneloop__j_m_i(v[0], v[6], v[14])
    return (x, 0.)

def w50(v):
    cdef R x = f_oneloop__j_0_i(v[0], v[14])
    return (x, 0.)

def w51(v):
    cdef R x = f_oneloop__j_m_l_i(v[0], v[6], v[14])
    return (x, 0.)

def w52(v):
    cdef R x = f_oneloop__j_0_l_i(v[0], v[14])
    return (x, 0.)

def w53(v):
    cdef R x = f_oneloop__j_m_t_i(v[0], v[6], v[14])
    return (x, 0.)

def w54(v):
    cdef R x = f_oneloop__j_0_t_i(v[0], v[14])
    return (x, 0.)

def w55(v):
    cdef C x = f_oneloop__i_m_m_i(v[0], v[2], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w56(v):
    cdef C x = f_oneloop__i_m_m_i_same_mass(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w57(v):
    cdef C x = f_oneloop__i_m_0_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w58(v):
    cdef C x = f_oneloop__i_0_0_i(v[0], v[2], v[4], v[14])
    return (x.re, x.im)

def w59(v):
    cdef C x = f_oneloop__i_m_m_l_i(v[0], v[2], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w60(v):
    cdef C x = f_oneloop__i_m_m_l_i_same_mass(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w61(v):
    cdef C x = f_oneloop__i_m_0_l_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w62(v):
    cdef C x = f_oneloop__i_0_0_l_i(v[0], v[2], v[4], v[14])
    return (x.re, x.im)

def w63(v):
    cdef C x = f_oneloop__i_m_m_t_i(v[0], v[2], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w64(v):
    cdef C x = f_oneloop__i_m_m_t_i_same_mass(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w65(v):
    cdef C x = f_oneloop__i_m_0_t_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w66(v):
    cdef C x = f_oneloop__i_0_0_t_i(v[0], v[2], v[4], v[14])
    return (x.re, x.im)

def w67(v):
    cdef R x = f_oneloop__d_j_m_i(v[0], v[6], v[14])
    return (x, 0.)

def w68(v):
    cdef R x = f_oneloop__d_j_0_i(v[0], v[14])
    return (x, 0.)

def w69(v):
    cdef R x = f_oneloop__d2_j_m_i(v[0], v[6], v[14])
    return (x, 0.)

def w70(v):
    cdef R x = f_oneloop__d2_j_0_i(v[0], v[14])
    return (x, 0.)

def w71(v):
    cdef R x = f_oneloop__d_j_m_l_i(v[0], v[6], v[14])
    return (x, 0.)

def w72(v):
    cdef R x = f_oneloop__d_j_0_l_i(v[0], v[14])
    return (x, 0.)

def w73(v):
    cdef R x = f_oneloop__d2_j_m_l_i(v[0], v[6], v[14])
    return (x, 0.)

def w74(v):
    cdef R x = f_oneloop__d2_j_0_l_i(v[0], v[14])
    return (x, 0.)

def w75(v):
    cdef R x = f_oneloop__d_j_m_t_i(v[0], v[6], v[14])
    return (x, 0.)

def w76(v):
    cdef R x = f_oneloop__d_j_0_t_i(v[0], v[14])
    return (x, 0.)

def w77(v):
    cdef R x = f_oneloop__d2_j_m_t_i(v[0], v[6], v[14])
    return (x, 0.)

def w78(v):
    cdef R x = f_oneloop__d2_j_0_t_i(v[0], v[14])
    return (x, 0.)

def w79(v):
    cdef C x = f_oneloop__d_i_m_m_i(v[0], v[2], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w80(v):
    cdef C x = f_oneloop__d_i_m_m_i_same_mass(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w81(v):
    cdef C x = f_oneloop__d_i_m_0_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w82(v):
    cdef C x = f_oneloop__d_i_0_0_i(v[0], v[2], v[4], v[14])
    return (x.re, x.im)

def w83(v):
    cdef C x = f_oneloop__d_i_m_m_l_i(v[0], v[2], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w84(v):
    cdef C x = f_oneloop__d_i_m_m_l_i_same_mass(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w85(v):
    cdef C x = f_oneloop__d_i_m_0_l_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w86(v):
    cdef C x = f_oneloop__d_i_0_0_l_i(v[0], v[2], v[4], v[14])
    return (x.re, x.im)

def w87(v):
    cdef C x = f_oneloop__d_i_m_m_t_i(v[0], v[2], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w88(v):
    cdef C x = f_oneloop__d_i_m_m_t_i_same_mass(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w89(v):
    cdef C x = f_oneloop__d_i_m_0_t_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w90(v):
    cdef C x = f_oneloop__d_i_0_0_t_i(v[0], v[2], v[4], v[14])
    return (x.re, x.im)

def w91(v):
    cdef C x = f_oneloop__ghost__self_energy_thermal_part_landau_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w92(v):
    cdef C x = f_oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w93(v):
    cdef C x = f_oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w94(v):
    cdef C x = f_oneloop__gluon__polarization_glue_l_thermal_part_landau_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w95(v):
    cdef C x = f_oneloop__gluon__polarization_glue_t_thermal_part_landau_i(v[0], v[2], v[4], v[6], v[14])
    return (x.re, x.im)

def w96(v):
    cdef C x = f_oneloop__gluon__polarization_quark_l_thermal_part_landau_i(v[0], v[2], v[4], v[12], v[14], v[16])
    return (x.re, x.im)

def w97(v):
    cdef C x = f_oneloop__gluon__polarization_quark_t_thermal_part_landau_i(v[0], v[2], v[4], v[12], v[14], v[16])
    return (x.re, x.im)

def w98(v):
    cdef C x = f_oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(v[0], v[2], v[4], v[12], v[16])
    return (x.re, x.im)

def w99(v):
    cdef C x = f_oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(v[0], v[2], v[4], v[12], v[16])
    return (x.re, x.im)

def w100(v):
    cdef C x = f_oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w101(v):
    cdef C x = f_oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w102(v):
    cdef R x = f_oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(v[0], v[4], v[12], v[14], v[16])
    return (x, 0.)

def w103(v):
    cdef R x = f_oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(v[0], v[4], v[12], v[14], v[16])
    return (x, 0.)

def w104(v):
    cdef R x = f_oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(v[0], v[4], v[12], v[16])
    return (x, 0.)

def w105(v):
    cdef R x = f_oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(v[0], v[4], v[12], v[16])
    return (x, 0.)

def w106(v):
    cdef C x = f_oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w107(v):
    cdef C x = f_oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w108(v):
    cdef R x = f_oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(v[0], v[2], v[12], v[14], v[16])
    return (x, 0.)

def w109(v):
    cdef R x = f_oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(v[0], v[2], v[12], v[14], v[16])
    return (x, 0.)

def w110(v):
    cdef R x = f_oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(v[0], v[2], v[12], v[16])
    return (x, 0.)

def w111(v):
    cdef R x = f_oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(v[0], v[2], v[12], v[16])
    return (x, 0.)

def w112(v):
    cdef C x = f_oneloop__zero_matsubara__tlog(v[0], v[4], v[28])
    return (x.re, x.im)

def w113(v):
    cdef R x = f_oneloop__zero_matsubara__tlog_same_mass(v[0], v[4])
    return (x, 0.)

def w114(v):
    cdef R x = f_oneloop__zero_matsubara__tlog_zero_mass(v[0], v[4])
    return (x, 0.)

def w115(v):
    cdef C x = f_oneloop__zero_matsubara__tlog_t(v[0], v[4], v[28])
    return (x.re, x.im)

def w116(v):
    cdef R x = f_oneloop__zero_matsubara__tlog_t_same_mass(v[0], v[4])
    return (x, 0.)

def w117(v):
    cdef R x = f_oneloop__zero_matsubara__tlog_t_zero_mass(v[0], v[4])
    return (x, 0.)

def w118(v):
    cdef C x = f_oneloop__zero_matsubara__i_m_m_i(v[0], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w119(v):
    cdef R x = f_oneloop__zero_matsubara__i_m_m_i_same_mass(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w120(v):
    cdef C x = f_oneloop__zero_matsubara__i_m_0_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w121(v):
    cdef R x = f_oneloop__zero_matsubara__i_0_0_i(v[0], v[4], v[14])
    return (x, 0.)

def w122(v):
    cdef C x = f_oneloop__zero_matsubara__i_m_m_l_i(v[0], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w123(v):
    cdef R x = f_oneloop__zero_matsubara__i_m_m_l_i_same_mass(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w124(v):
    cdef C x = f_oneloop__zero_matsubara__i_m_0_l_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w125(v):
    cdef R x = f_oneloop__zero_matsubara__i_0_0_l_i(v[0], v[4], v[14])
    return (x, 0.)

def w126(v):
    cdef C x = f_oneloop__zero_matsubara__i_m_m_t_i(v[0], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w127(v):
    cdef R x = f_oneloop__zero_matsubara__i_m_m_t_i_same_mass(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w128(v):
    cdef C x = f_oneloop__zero_matsubara__i_m_0_t_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w129(v):
    cdef R x = f_oneloop__zero_matsubara__i_0_0_t_i(v[0], v[4], v[14])
    return (x, 0.)

def w130(v):
    cdef C x = f_oneloop__zero_matsubara__d_i_m_m_i(v[0], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w131(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_m_m_i_same_mass(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w132(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_m_0_i(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w133(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_0_0_i(v[0], v[4], v[14])
    return (x, 0.)

def w134(v):
    cdef C x = f_oneloop__zero_matsubara__d_i_m_m_l_i(v[0], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w135(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w136(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_m_0_l_i(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w137(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_0_0_l_i(v[0], v[4], v[14])
    return (x, 0.)

def w138(v):
    cdef C x = f_oneloop__zero_matsubara__d_i_m_m_t_i(v[0], v[4], v[8], v[10], v[14])
    return (x.re, x.im)

def w139(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(v[0], v[4], v[6], v[14])
    return (x, 0.)

def w140(v):
    cdef C x = f_oneloop__zero_matsubara__d_i_m_0_t_i(v[0], v[4], v[6], v[14])
    return (x.re, x.im)

def w141(v):
    cdef R x = f_oneloop__zero_matsubara__d_i_0_0_t_i(v[0], v[4], v[14])
    return (x, 0.)

def w142(v):
    cdef C x = f_oneloop__zero_momentum__i_m_m_i(v[0], v[2], v[8], v[10], v[14])
    return (x.re, x.im)

def w143(v):
    cdef C x = f_oneloop__zero_momentum__i_m_m_i_same_mass(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w144(v):
    cdef C x = f_oneloop__zero_momentum__i_m_0_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w145(v):
    cdef C x = f_oneloop__zero_momentum__i_0_0_i(v[0], v[2], v[14])
    return (x.re, x.im)

def w146(v):
    cdef C x = f_oneloop__zero_momentum__i_m_m_l_i(v[0], v[2], v[8], v[10], v[14])
    return (x.re, x.im)

def w147(v):
    cdef C x = f_oneloop__zero_momentum__i_m_m_l_i_same_mass(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w148(v):
    cdef C x = f_oneloop__zero_momentum__i_m_0_l_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w149(v):
    cdef C x = f_oneloop__zero_momentum__i_0_0_l_i(v[0], v[2], v[14])
    return (x.re, x.im)

def w150(v):
    cdef C x = f_oneloop__zero_momentum__i_m_m_t_i(v[0], v[2], v[8], v[10], v[14])
    return (x.re, x.im)

def w151(v):
    cdef C x = f_oneloop__zero_momentum__i_m_m_t_i_same_mass(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w152(v):
    cdef C x = f_oneloop__zero_momentum__i_m_0_t_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w153(v):
    cdef C x = f_oneloop__zero_momentum__i_0_0_t_i(v[0], v[2], v[14])
    return (x.re, x.im)

def w154(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_m_i(v[0], v[2], v[8], v[10], v[14])
    return (x.re, x.im)

def w155(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_m_i_same_mass(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w156(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_0_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w157(v):
    cdef C x = f_oneloop__zero_momentum__d_i_0_0_i(v[0], v[2], v[14])
    return (x.re, x.im)

def w158(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_m_l_i(v[0], v[2], v[8], v[10], v[14])
    return (x.re, x.im)

def w159(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_m_l_i_same_mass(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w160(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_0_l_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w161(v):
    cdef C x = f_oneloop__zero_momentum__d_i_0_0_l_i(v[0], v[2], v[14])
    return (x.re, x.im)

def w162(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_m_t_i(v[0], v[2], v[8], v[10], v[14])
    return (x.re, x.im)

def w163(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_m_t_i_same_mass(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w164(v):
    cdef C x = f_oneloop__zero_momentum__d_i_m_0_t_i(v[0], v[2], v[6], v[14])
    return (x.re, x.im)

def w165(v):
    cdef C x = f_oneloop__zero_momentum__d_i_0_0_t_i(v[0], v[2], v[14])
    return (x.re, x.im)

def w166(v):
    cdef R x = f_ym__ghost__dressing_inv_landau(v[24], v[20])
    return (x, 0.)

def w167(v):
    cdef C x = f_ym__ghost__dressing_inv_landau__complex(cc(v[24], v[25]), v[20])
    return (x.re, x.im)

def w168(v):
    cdef R x = f_ym__ghost__dressing_inv(v[24], v[20], v[22])
    return (x, 0.)

def w169(v):
    cdef C x = f_ym__ghost__dressing_inv__complex(cc(v[24], v[25]), v[20], v[22])
    return (x.re, x.im)

def w170(v):
    cdef R x = f_ym__ghost__dressing_landau(v[24], v[20])
    return (x, 0.)

def w171(v):
    cdef C x = f_ym__ghost__dressing_landau__complex(cc(v[24], v[25]), v[20])
    return (x.re, x.im)

def w172(v):
    cdef R x = f_ym__ghost__dressing(v[24], v[20], v[22])
    return (x, 0.)

def w173(v):
    cdef C x = f_ym__ghost__dressing__complex(cc(v[24], v[25]), v[20], v[22])
    return (x.re, x.im)

def w174(v):
    cdef R x = f_ym__ghost__propagator_landau(v[24], v[20])
    return (x, 0.)

def w175(v):
    cdef C x = f_ym__ghost__propagator_landau__complex(cc(v[24], v[25]), v[20])
    return (x.re, x.im)

def w176(v):
    cdef R x = f_ym__ghost__propagator(v[24], v[20], v[22])
    return (x, 0.)

def w177(v):
    cdef C x = f_ym__ghost__propagator__complex(cc(v[24], v[25]), v[20], v[22])
    return (x.re, x.im)

def w178(v):
    cdef R x = f_ym__gluon__dressing_inv_landau(v[24], v[18])
    return (x, 0.)

def w179(v):
    cdef C x = f_ym__gluon__dressing_inv_landau__complex(cc(v[24], v[25]), v[18])
    return (x.re, x.im)

def w180(v):
    cdef R x = f_ym__gluon__dressing_inv(v[24], v[18], v[22])
    return (x, 0.)

def w181(v):
    cdef C x = f_ym__gluon__dressing_inv__complex(cc(v[24], v[25]), v[18], v[22])
    return (x.re, x.im)

def w182(v):
    cdef R x = f_ym__gluon__dressing_landau(v[24], v[18])
    return (x, 0.)

def w183(v):
    cdef C x = f_ym__gluon__dressing_landau__complex(cc(v[24], v[25]), v[18])
    return (x.re, x.im)

def w184(v):
    cdef R x = f_ym__gluon__dressing(v[24], v[18], v[22])
    return (x, 0.)

def w185(v):
    cdef C x = f_ym__gluon__dressing__complex(cc(v[24], v[25]), v[18], v[22])
    return (x.re, x.im)

def w186(v):
    cdef R x = f_ym__gluon__propagator_landau(v[24], v[18])
    return (x, 0.)

def w187(v):
    cdef C x = f_ym__gluon__propagator_landau__complex(cc(v[24], v[25]), v[18])
    return (x.re, x.im)

def w188(v):
    cdef R x = f_ym__gluon__propagator(v[24], v[18], v[22])
    return (x, 0.)

def w189(v):
    cdef C x = f_ym__gluon__propagator__complex(cc(v[24], v[25]), v[18], v[22])
    return (x.re, x.im)

def w190(v):
    cdef R x = f_qcd__ghost__dressing_inv_landau(v[24], v[20])
    return (x, 0.)

def w191(v):
    cdef C x = f_qcd__ghost__dressing_inv_landau__complex(cc(v[24], v[25]), v[20])
    return (x.re, x.im)

def w192(v):
    cdef R x = f_qcd__ghost__dressing_inv(v[24], v[20], v[22])
    return (x, 0.)

def w193(v):
    cdef C x = f_qcd__ghost__dressing_inv__complex(cc(v[24], v[25]), v[20], v[22])
    return (x.re, x.im)

def w194(v):
    cdef R x = f_qcd__ghost__dressing_landau(v[24], v[20])
    return (x, 0.)

def w195(v):
    cdef C x = f_qcd__ghost__dressing_landau__complex(cc(v[24], v[25]), v[20])
    return (x.re, x.im)

def w196(v):
    cdef R x = f_qcd__ghost__dressing(v[24], v[20], v[22])
    return (x, 0.)

def w197(v):
    cdef C x = f_qcd__ghost__dressing__complex(cc(v[24], v[25]), v[20], v[22])
    return (x.re, x.im)

def w198(v):
    cdef R x = f_qcd__gluon__dressing_inv_landau(v[24], v[12], v[18])
    return (x, 0.)

def w199(v):
    cdef C x = f_qcd__gluon__dressing_inv_landau__complex(cc(v[24], v[25]), v[12], v[18])
    return (x.re, x.im)

def w200(v):
    cdef R x = f_qcd__gluon__dressing_inv(v[24], v[12], v[18], v[22])
    return (x, 0.)

def w201(v):
    cdef C x = f_qcd__gluon__dressing_inv__complex(cc(v[24], v[25]), v[12], v[18], v[22])
    return (x.re, x.im)

def w202(v):
    cdef R x = f_qcd__gluon__dressing_landau(v[24], v[12], v[18])
    return (x, 0.)

def w203(v):
    cdef C x = f_qcd__gluon__dressing_landau__complex(cc(v[24], v[25]), v[12], v[18])
    return (x.re, x.im)

def w204(v):
    cdef R x = f_qcd__gluon__dressing(v[24], v[12], v[18], v[22])
    return (x, 0.)

def w205(v):
    cdef C x = f_qcd__gluon__dressing__complex(cc(v[24], v[25]), v[12], v[18], v[22])
    return (x.re, x.im)

def w206(v):
    cdef R x = f_qcd__gluon__propagator_landau(v[24], v[12], v[18])
    return (x, 0.)

def w207(v):
    cdef C x = f_qcd__gluon__propagator_landau__complex(cc(v[24], v[25]), v[12], v[18])
    return (x.re, x.im)

def w208(v):
    cdef R x = f_qcd__gluon__propagator(v[24], v[12], v[18], v[22])
    return (x, 0.)

def w209(v):
    cdef C x = f_qcd__gluon__propagator__complex(cc(v[24], v[25]), v[12], v[18], v[22])
    return (x.re, x.im)

def w210(v):
    cdef R x = f_qcd__gluon__dressing_crossed_inv_landau(v[24], v[12], v[18])
    return (x, 0.)

def w211(v):
    cdef C x = f_qcd__gluon__dressing_crossed_inv_landau__complex(cc(v[24], v[25]), v[12], v[18])
    return (x.re, x.im)

def w212(v):
    cdef R x = f_qcd__gluon__dressing_crossed_inv(v[24], v[12], v[18], v[22])
    return (x, 0.)

def w213(v):
    cdef C x = f_qcd__gluon__dressing_crossed_inv__complex(cc(v[24], v[25]), v[12], v[18], v[22])
    return (x.re, x.im)

def w214(v):
    cdef R x = f_qcd__gluon__dressing_crossed_landau(v[24], v[12], v[18])
    return (x, 0.)

def w215(v):
    cdef C x = f_qcd__gluon__dressing_crossed_landau__complex(cc(v[24], v[25]), v[12], v[18])
    return (x.re, x.im)

def w216(v):
    cdef R x = f_qcd__gluon__dressing_crossed(v[24], v[12], v[18], v[22])
    return (x, 0.)

def w217(v):
    cdef C x = f_qcd__gluon__dressing_crossed__complex(cc(v[24], v[25]), v[12], v[18], v[22])
    return (x.re, x.im)

def w218(v):
    cdef R x = f_qcd__gluon__propagator_crossed_landau(v[24], v[12], v[18])
    return (x, 0.)

def w219(v):
    cdef C x = f_qcd__gluon__propagator_crossed_landau__complex(cc(v[24], v[25]), v[12], v[18])
    return (x.re, x.im)

def w220(v):
    cdef R x = f_qcd__gluon__propagator_crossed(v[24], v[12], v[18], v[22])
    return (x, 0.)

def w221(v):
    cdef C x = f_qcd__gluon__propagator_crossed__complex(cc(v[24], v[25]), v[12], v[18], v[22])
    return (x.re, x.im)

def s0(x):
    fs_number_of_colors(int(x))

def g0():
    return float(fg_number_of_colors())

def s1(x):
    fs_number_of_fermions(int(x))

def g1():
    return float(fg_number_of_fermions())

def s2(x):
    fs_default_quark_mass(x)

def g2():
    return float(fg_default_quark_mass())

def s3(x):
    fs_default_tol_integral(x)

def g3():
    return float(fg_default_tol_integral())

def s4(x):
    fs_default_max_iter_integral(int(x))

def g4():
    return float(fg_default_max_iter_integral())

def s5(x):
    fs_matsubara_reg(x)

def g5():
    return float(fg_matsubara_reg())
