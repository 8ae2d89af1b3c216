/* @generated by gen/gen_capi.py */
#include "qcd_sme.hpp"

static R (*const p0)(R, R) = energy_squared;
static R (*const p1)(R, R) = energy;
static R (*const p2)(R, R) = fermi_momentum;
static R (*const p3)(R, R, R) = fermi_distribution;
static R (*const p4)(R, R) = fermi_distribution_zero_temp;
static R (*const p5)(R, R, R) = fermi_distribution_double;
static R (*const p6)(R, R) = fermi_distribution_double_zero_temp;
static R (*const p7)(R, R) = fermi_distribution_zero_chempot;
static R (*const p8)(R, R, R) = bose_distribution;
static R (*const p9)(R, R) = bose_distribution_zero_chempot;
static R (*const p10)(R, R, R) = statistic_distribution_exponential;
static R (*const p11)(R, R) = statistic_distribution_exponential_zero_chempot;
static R (*const p12)(R, R, R) = oneloop__ghost__g_sep;
static R (*const p13)(R) = oneloop__ghost__g;
static C (*const p14)(C, C, C) = oneloop__ghost__g_sep__complex;
static C (*const p15)(C) = oneloop__ghost__g__complex;
static R (*const p16)(R) = oneloop__ghost__g_xi_sep;
static R (*const p17)(R) = oneloop__ghost__g_xi;
static C (*const p18)(C) = oneloop__ghost__g_xi_sep__complex;
static C (*const p19)(C) = oneloop__ghost__g_xi__complex;
static R (*const p20)(R, R, R, R) = ym__oneloop__ghost__dressing_inv_landau_sep;
static C (*const p21)(C, C, C, R) = ym__oneloop__ghost__dressing_inv_landau_sep__complex;
static R (*const p22)(R, R, R, R, R) = ym__oneloop__ghost__dressing_inv_sep;
static C (*const p23)(C, C, C, R, R) = ym__oneloop__ghost__dressing_inv_sep__complex;
static R (*const p24)(R, R, R) = oneloop__gluon__f_sep;
static R (*const p25)(R) = oneloop__gluon__f;
static C (*const p26)(C, C, C) = oneloop__gluon__f_sep__complex;
static C (*const p27)(C) = oneloop__gluon__f__complex;
static R (*const p28)(R, R, R) = oneloop__gluon__f_xi_sep;
static R (*const p29)(R) = oneloop__gluon__f_xi;
static C (*const p30)(C, C, C) = oneloop__gluon__f_xi_sep__complex;
static C (*const p31)(C) = oneloop__gluon__f_xi__complex;
static R (*const p32)(R) = oneloop__gluon__f_q;
static C (*const p33)(C) = oneloop__gluon__f_q__complex;
static R (*const p34)(R) = oneloop__gluon__f_q_crossed;
static C (*const p35)(C) = oneloop__gluon__f_q_crossed__complex;
static R (*const p36)(R, R, R, R) = ym__oneloop__gluon__dressing_inv_landau_sep;
static C (*const p37)(C, C, C, R) = ym__oneloop__gluon__dressing_inv_landau_sep__complex;
static R (*const p38)(R, R, R, R, R) = ym__oneloop__gluon__dressing_inv_sep;
static C (*const p39)(C, C, C, R, R) = ym__oneloop__gluon__dressing_inv_sep__complex;
static C (*const p40)(R, R, R, R, R) = oneloop__tlog;
static C (*const p41)(R, R, R, R) = oneloop__tlog_same_mass;
static C (*const p42)(R, R, R) = oneloop__tlog_zero_mass;
static C (*const p43)(R, R, R, R, R) = oneloop__tlog_l;
static C (*const p44)(R, R, R, R) = oneloop__tlog_l_same_mass;
static C (*const p45)(R, R, R) = oneloop__tlog_l_zero_mass;
static C (*const p46)(R, R, R, R, R) = oneloop__tlog_t;
static C (*const p47)(R, R, R, R) = oneloop__tlog_t_same_mass;
static C (*const p48)(R, R, R) = oneloop__tlog_t_zero_mass;
static R (*const p49)(R, R, R) = oneloop__j_m_i;
static R (*const p50)(R, R) = oneloop__j_0_i;
static R (*const p51)(R, R, R) = oneloop__j_m_l_i;
static R (*const p52)(R, R) = oneloop__j_0_l_i;
static R (*const p53)(R, R, R) = oneloop__j_m_t_i;
static R (*const p54)(R, R) = oneloop__j_0_t_i;
static C (*const p55)(R, R, R, R, R, R) = oneloop__i_m_m_i;
static C (*const p56)(R, R, R, R, R) = oneloop__i_m_m_i_same_mass;
static C (*const p57)(R, R, R, R, R) = oneloop__i_m_0_i;
static C (*const p58)(R, R, R, R) = oneloop__i_0_0_i;
static C (*const p59)(R, R, R, R, R, R) = oneloop__i_m_m_l_i;
static C (*const p60)(R, R, R, R, R) = oneloop__i_m_m_l_i_same_mass;
static C (*const p61)(R, R, R, R, R) = oneloop__i_m_0_l_i;
static C (*const p62)(R, R, R, R) = oneloop__i_0_0_l_i;
static C (*const p63)(R, R, R, R, R, R) = oneloop__i_m_m_t_i;
static C (*const p64)(R, R, R, R, R) = oneloop__i_m_m_t_i_same_mass;
static C (*const p65)(R, R, R, R, R) = oneloop__i_m_0_t_i;
static C (*const p66)(R, R, R, R) = oneloop__i_0_0_t_i;
static R (*const p67)(R, R, R) = oneloop__d_j_m_i;
static R (*const p68)(R, R) = oneloop__d_j_0_i;
static R (*const p69)(R, R, R) = oneloop__d2_j_m_i;
static R (*const p70)(R, R) = oneloop__d2_j_0_i;
static R (*const p71)(R, R, R) = oneloop__d_j_m_l_i;
static R (*const p72)(R, R) = oneloop__d_j_0_l_i;
static R (*const p73)(R, R, R) = oneloop__d2_j_m_l_i;
static R (*const p74)(R, R) = oneloop__d2_j_0_l_i;
static R (*const p75)(R, R, R) = oneloop__d_j_m_t_i;
static R (*const p76)(R, R) = oneloop__d_j_0_t_i;
static R (*const p77)(R, R, R) = oneloop__d2_j_m_t_i;
static R (*const p78)(R, R) = oneloop__d2_j_0_t_i;
static C (*const p79)(R, R, R, R, R, R) = oneloop__d_i_m_m_i;
static C (*const p80)(R, R, R, R, R) = oneloop__d_i_m_m_i_same_mass;
static C (*const p81)(R, R, R, R, R) = oneloop__d_i_m_0_i;
static C (*const p82)(R, R, R, R) = oneloop__d_i_0_0_i;
static C (*const p83)(R, R, R, R, R, R) = oneloop__d_i_m_m_l_i;
static C (*const p84)(R, R, R, R, R) = oneloop__d_i_m_m_l_i_same_mass;
static C (*const p85)(R, R, R, R, R) = oneloop__d_i_m_0_l_i;
static C (*const p86)(R, R, R, R) = oneloop__d_i_0_0_l_i;
static C (*const p87)(R, R, R, R, R, R) = oneloop__d_i_m_m_t_i;
static C (*const p88)(R, R, R, R, R) = oneloop__d_i_m_m_t_i_same_mass;
static C (*const p89)(R, R, R, R, R) = oneloop__d_i_m_0_t_i;
static C (*const p90)(R, R, R, R) = oneloop__d_i_0_0_t_i;
static C (*const p91)(R, R, R, R, R) = oneloop__ghost__self_energy_thermal_part_landau_i;
static C (*const p92)(R, R, R, R) = oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i;
static C (*const p93)(R, R, R, R) = oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i;
static C (*const p94)(R, R, R, R, R) = oneloop__gluon__polarization_glue_l_thermal_part_landau_i;
static C (*const p95)(R, R, R, R, R) = oneloop__gluon__polarization_glue_t_thermal_part_landau_i;
static C (*const p96)(R, R, R, R, R, R) = oneloop__gluon__polarization_quark_l_thermal_part_landau_i;
static C (*const p97)(R, R, R, R, R, R) = oneloop__gluon__polarization_quark_t_thermal_part_landau_i;
static C (*const p98)(R, R, R, R, R) = oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i;
static C (*const p99)(R, R, R, R, R) = oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i;
static C (*const p100)(R, R, R, R) = oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i;
static C (*const p101)(R, R, R, R) = oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i;
static R (*const p102)(R, R, R, R, R) = oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i;
static R (*const p103)(R, R, R, R, R) = oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i;
static R (*const p104)(R, R, R, R) = oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i;
static R (*const p105)(R, R, R, R) = oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i;
static C (*const p106)(R, R, R, R) = oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i;
static C (*const p107)(R, R, R, R) = oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i;
static R (*const p108)(R, R, R, R, R) = oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i;
static R (*const p109)(R, R, R, R, R) = oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i;
static R (*const p110)(R, R, R, R) = oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i;
static R (*const p111)(R, R, R, R) = oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i;
static C (*const p112)(R, R, R) = oneloop__zero_matsubara__tlog;
static R (*const p113)(R, R) = oneloop__zero_matsubara__tlog_same_mass;
static R (*const p114)(R, R) = oneloop__zero_matsubara__tlog_zero_mass;
static C (*const p115)(R, R, R) = oneloop__zero_matsubara__tlog_t;
static R (*const p116)(R, R) = oneloop__zero_matsubara__tlog_t_same_mass;
static R (*const p117)(R, R) = oneloop__zero_matsubara__tlog_t_zero_mass;
static C (*const p118)(R, R, R, R, R) = oneloop__zero_matsubara__i_m_m_i;
static R (*const p119)(R, R, R, R) = oneloop__zero_matsubara__i_m_m_i_same_mass;
static C (*const p120)(R, R, R, R) = oneloop__zero_matsubara__i_m_0_i;
static R (*const p121)(R, R, R) = oneloop__zero_matsubara__i_0_0_i;
static C (*const p122)(R, R, R, R, R) = oneloop__zero_matsubara__i_m_m_l_i;
static R (*const p123)(R, R, R, R) = oneloop__zero_matsubara__i_m_m_l_i_same_mass;
static C (*const p124)(R, R, R, R) = oneloop__zero_matsubara__i_m_0_l_i;
static R (*const p125)(R, R, R) = oneloop__zero_matsubara__i_0_0_l_i;
static C (*const p126)(R, R, R, R, R) = oneloop__zero_matsubara__i_m_m_t_i;
static R (*const p127)(R, R, R, R) = oneloop__zero_matsubara__i_m_m_t_i_same_mass;
static C (*const p128)(R, R, R, R) = oneloop__zero_matsubara__i_m_0_t_i;
static R (*const p129)(R, R, R) = oneloop__zero_matsubara__i_0_0_t_i;
static C (*const p130)(R, R, R, R, R) = oneloop__zero_matsubara__d_i_m_m_i;
static R (*const p131)(R, R, R, R) = oneloop__zero_matsubara__d_i_m_m_i_same_mass;
static R (*const p132)(R, R, R, R) = oneloop__zero_matsubara__d_i_m_0_i;
static R (*const p133)(R, R, R) = oneloop__zero_matsubara__d_i_0_0_i;
static C (*const p134)(R, R, R, R, R) = oneloop__zero_matsubara__d_i_m_m_l_i;
static R (*const p135)(R, R, R, R) = oneloop__zero_matsubara__d_i_m_m_l_i_same_mass;
static R (*const p136)(R, R, R, R) = oneloop__zero_matsubara__d_i_m_0_l_i;
static R (*const p137)(R, R, R) = oneloop__zero_matsubara__d_i_0_0_l_i;
static C (*const p138)(R, R, R, R, R) = oneloop__zero_matsubara__d_i_m_m_t_i;
static R (*const p139)(R, R, R, R) = oneloop__zero_matsubara__d_i_m_m_t_i_same_mass;
static C (*const p140)(R, R, R, R) = oneloop__zero_matsubara__d_i_m_0_t_i;
static R (*const p141)(R, R, R) = oneloop__zero_matsubara__d_i_0_0_t_i;
static C (*const p142)(R, R, R, R, R) = oneloop__zero_momentum__i_m_m_i;
static C (*const p143)(R, R, R, R) = oneloop__zero_momentum__i_m_m_i_same_mass;
static C (*const p144)(R, R, R, R) = oneloop__zero_momentum__i_m_0_i;
static C (*const p145)(R, R, R) = oneloop__zero_momentum__i_0_0_i;
static C (*const p146)(R, R, R, R, R) = oneloop__zero_momentum__i_m_m_l_i;
static C (*const p147)(R, R, R, R) = oneloop__zero_momentum__i_m_m_l_i_same_mass;
static C (*const p148)(R, R, R, R) = oneloop__zero_momentum__i_m_0_l_i;
static C (*const p149)(R, R, R) = oneloop__zero_momentum__i_0_0_l_i;
static C (*const p150)(R, R, R, R, R) = oneloop__zero_momentum__i_m_m_t_i;
static C (*const p151)(R, R, R, R) = oneloop__zero_momentum__i_m_m_t_i_same_mass;
static C (*const p152)(R, R, R, R) = oneloop__zero_momentum__i_m_0_t_i;
static C (*const p153)(R, R, R) = oneloop__zero_momentum__i_0_0_t_i;
static C (*const p154)(R, R, R, R, R) = oneloop__zero_momentum__d_i_m_m_i;
static C (*const p155)(R, R, R, R) = oneloop__zero_momentum__d_i_m_m_i_same_mass;
static C (*const p156)(R, R, R, R) = oneloop__zero_momentum__d_i_m_0_i;
static C (*const p157)(R, R, R) = oneloop__zero_momentum__d_i_0_0_i;
static C (*const p158)(R, R, R, R, R) = oneloop__zero_momentum__d_i_m_m_l_i;
static C (*const p159)(R, R, R, R) = oneloop__zero_momentum__d_i_m_m_l_i_same_mass;
static C (*const p160)(R, R, R, R) = oneloop__zero_momentum__d_i_m_0_l_i;
static C (*const p161)(R, R, R) = oneloop__zero_momentum__d_i_0_0_l_i;
static C (*const p162)(R, R, R, R, R) = oneloop__zero_momentum__d_i_m_m_t_i;
static C (*const p163)(R, R, R, R) = oneloop__zero_momentum__d_i_m_m_t_i_same_mass;
static C (*const p164)(R, R, R, R) = oneloop__zero_momentum__d_i_m_0_t_i;
static C (*const p165)(R, R, R) = oneloop__zero_momentum__d_i_0_0_t_i;
static R (*const p166)(R, R) = ym__ghost__dressing_inv_landau;
static C (*const p167)(C, R) = ym__ghost__dressing_inv_landau__complex;
static R (*const p168)(R, R, R) = ym__ghost__dressing_inv;
static C (*const p169)(C, R, R) = ym__ghost__dressing_inv__complex;
static R (*const p170)(R, R) = ym__ghost__dressing_landau;
static C (*const p171)(C, R) = ym__ghost__dressing_landau__complex;
static R (*const p172)(R, R, R) = ym__ghost__dressing;
static C (*const p173)(C, R, R) = ym__ghost__dressing__complex;
static R (*const p174)(R, R) = ym__ghost__propagator_landau;
static C (*const p175)(C, R) = ym__ghost__propagator_landau__complex;
static R (*const p176)(R, R, R) = ym__ghost__propagator;
static C (*const p177)(C, R, R) = ym__ghost__propagator__complex;
static R (*const p178)(R, R) = ym__gluon__dressing_inv_landau;
static C (*const p179)(C, R) = ym__gluon__dressing_inv_landau__complex;
static R (*const p180)(R, R, R) = ym__gluon__dressing_inv;
static C (*const p181)(C, R, R) = ym__gluon__dressing_inv__complex;
static R (*const p182)(R, R) = ym__gluon__dressing_landau;
static C (*const p183)(C, R) = ym__gluon__dressing_landau__complex;
static R (*const p184)(R, R, R) = ym__gluon__dressing;
static C (*const p185)(C, R, R) = ym__gluon__dressing__complex;
static R (*const p186)(R, R) = ym__gluon__propagator_landau;
static C (*const p187)(C, R) = ym__gluon__propagator_landau__complex;
static R (*const p188)(R, R, R) = ym__gluon__propagator;
static C (*const p189)(C, R, R) = ym__gluon__propagator__complex;
static R (*const p190)(R, R) = qcd__ghost__dressing_inv_landau;
static C (*const p191)(C, R) = qcd__ghost__dressing_inv_landau__complex;
static R (*const p192)(R, R, R) = qcd__ghost__dressing_inv;
static C (*const p193)(C, R, R) = qcd__ghost__dressing_inv__complex;
static R (*const p194)(R, R) = qcd__ghost__dressing_landau;
static C (*const p195)(C, R) = qcd__ghost__dressing_landau__complex;
static R (*const p196)(R, R, R) = qcd__ghost__dressing;
static C (*const p197)(C, R, R) = qcd__ghost__dressing__complex;
static R (*const p198)(R, R, R) = qcd__gluon__dressing_inv_landau;
static C (*const p199)(C, R, R) = qcd__gluon__dressing_inv_landau__complex;
static R (*const p200)(R, R, R, R) = qcd__gluon__dressing_inv;
static C (*const p201)(C, R, R, R) = qcd__gluon__dressing_inv__complex;
static R (*const p202)(R, R, R) = qcd__gluon__dressing_landau;
static C (*const p203)(C, R, R) = qcd__gluon__dressing_landau__complex;
static R (*const p204)(R, R, R, R) = qcd__gluon__dressing;
static C (*const p205)(C, R, R, R) = qcd__gluon__dressing__complex;
static R (*const p206)(R, R, R) = qcd__gluon__propagator_landau;
static C (*const p207)(C, R, R) = qcd__gluon__propagator_landau__complex;
static R (*const p208)(R, R, R, R) = qcd__gluon__propagator;
static C (*const p209)(C, R, R, R) = qcd__gluon__propagator__complex;
static R (*const p210)(R, R, R) = qcd__gluon__dressing_crossed_inv_landau;
static C (*const p211)(C, R, R) = qcd__gluon__dressing_crossed_inv_landau__complex;
static R (*const p212)(R, R, R, R) = qcd__gluon__dressing_crossed_inv;
static C (*const p213)(C, R, R, R) = qcd__gluon__dressing_crossed_inv__complex;
static R (*const p214)(R, R, R) = qcd__gluon__dressing_crossed_landau;
static C (*const p215)(C, R, R) = qcd__gluon__dressing_crossed_landau__complex;
static R (*const p216)(R, R, R, R) = qcd__gluon__dressing_crossed;
static C (*const p217)(C, R, R, R) = qcd__gluon__dressing_crossed__complex;
static R (*const p218)(R, R, R) = qcd__gluon__propagator_crossed_landau;
static C (*const p219)(C, R, R) = qcd__gluon__propagator_crossed_landau__complex;
static R (*const p220)(R, R, R, R) = qcd__gluon__propagator_crossed;
static C (*const p221)(C, R, R, R) = qcd__gluon__propagator_crossed__complex;
static uint32_t (*const g_number_of_colors)() = get_number_of_colors;
static void (*const s_number_of_colors)(uint32_t) = set_number_of_colors;
static uint32_t (*const g_number_of_fermions)() = get_number_of_fermions;
static void (*const s_number_of_fermions)(uint32_t) = set_number_of_fermions;
static R (*const g_default_quark_mass)() = get_default_quark_mass;
static void (*const s_default_quark_mass)(R) = set_default_quark_mass;
static R (*const g_default_tol_integral)() = get_default_tol_integral;
static void (*const s_default_tol_integral)(R) = set_default_tol_integral;
static uint32_t (*const g_default_max_iter_integral)() = get_default_max_iter_integral;
static void (*const s_default_max_iter_integral)(uint32_t) = set_default_max_iter_integral;
static R (*const g_matsubara_reg)() = get_matsubara_reg;
static void (*const s_matsubara_reg)(R) = set_matsubara_reg;
static C cc(const double *v) { C z; z.re = v[0]; z.im = v[1]; return z; }
static void o_r(double *o, R x) { o[0] = x; o[1] = 0.; }
static void o_c(double *o, C x) { o[0] = x.re; o[1] = x.im; }
extern "C" void w_call(int i, const double *v, double *o)
{
    switch (i) {
    case 0: o_r(o, p0(v[4], v[6])); break;
    case 1: o_r(o, p1(v[4], v[6])); break;
    case 2: o_r(o, p2(v[6], v[16])); break;
    case 3: o_r(o, p3(v[26], v[14], v[16])); break;
    case 4: o_r(o, p4(v[26], v[16])); break;
    case 5: o_r(o, p5(v[26], v[14], v[16])); break;
    case 6: o_r(o, p6(v[26], v[16])); break;
    case 7: o_r(o, p7(v[26], v[14])); break;
    case 8: o_r(o, p8(v[26], v[14], v[16])); break;
    case 9: o_r(o, p9(v[26], v[14])); break;
    case 10: o_r(o, p10(v[26], v[14], v[16])); break;
    case 11: o_r(o, p11(v[26], v[14])); break;
    case 12: o_r(o, p12(v[24], v[30], v[32])); break;
    case 13: o_r(o, p13(v[24])); break;
    case 14: o_c(o, p14(cc(v + 24), cc(v + 30), cc(v + 32))); break;
    case 15: o_c(o, p15(cc(v + 24))); break;
    case 16: o_r(o, p16(v[30])); break;
    case 17: o_r(o, p17(v[24])); break;
    case 18: o_c(o, p18(cc(v + 30))); break;
    case 19: o_c(o, p19(cc(v + 24))); break;
    case 20: o_r(o, p20(v[24], v[30], v[32], v[20])); break;
    case 21: o_c(o, p21(cc(v + 24), cc(v + 30), cc(v + 32), v[20])); break;
    case 22: o_r(o, p22(v[24], v[30], v[32], v[20], v[22])); break;
    case 23: o_c(o, p23(cc(v + 24), cc(v + 30), cc(v + 32), v[20], v[22])); break;
    case 24: o_r(o, p24(v[24], v[30], v[32])); break;
    case 25: o_r(o, p25(v[24])); break;
    case 26: o_c(o, p26(cc(v + 24), cc(v + 30), cc(v + 32))); break;
    case 27: o_c(o, p27(cc(v + 24))); break;
    case 28: o_r(o, p28(v[24], v[30], v[32])); break;
    case 29: o_r(o, p29(v[24])); break;
    case 30: o_c(o, p30(cc(v + 24), cc(v + 30), cc(v + 32))); break;
    case 31: o_c(o, p31(cc(v + 24))); break;
    case 32: o_r(o, p32(v[24])); break;
    case 33: o_c(o, p33(cc(v + 24))); break;
    case 34: o_r(o, p34(v[24])); break;
    case 35: o_c(o, p35(cc(v + 24))); break;
    case 36: o_r(o, p36(v[24], v[30], v[32], v[18])); break;
    case 37: o_c(o, p37(cc(v + 24), cc(v + 30), cc(v + 32), v[18])); break;
    case 38: o_r(o, p38(v[24], v[30], v[32], v[18], v[22])); break;
    case 39: o_c(o, p39(cc(v + 24), cc(v + 30), cc(v + 32), v[18], v[22])); break;
    case 40: o_c(o, p40(v[0], v[2], v[4], v[26], v[28])); break;
    case 41: o_c(o, p41(v[0], v[2], v[4], v[26])); break;
    case 42: o_c(o, p42(v[0], v[2], v[4])); break;
    case 43: o_c(o, p43(v[0], v[2], v[4], v[26], v[28])); break;
    case 44: o_c(o, p44(v[0], v[2], v[4], v[26])); break;
    case 45: o_c(o, p45(v[0], v[2], v[4])); break;
    case 46: o_c(o, p46(v[0], v[2], v[4], v[26], v[28])); break;
    case 47: o_c(o, p47(v[0], v[2], v[4], v[26])); break;
    case 48: o_c(o, p48(v[0], v[2], v[4])); break;
    case 49: o_r(o, p49(v[0], v[6], v[14])); break;
    case 50: o_r(o, p50(v[0], v[14])); break;
    case 51: o_r(o, p51(v[0], v[6], v[14])); break;
    case 52: o_r(o, p52(v[0], v[14])); break;
    case 53: o_r(o, p53(v[0], v[6], v[14])); break;
    case 54: o_r(o, p54(v[0], v[14])); break;
    case 55: o_c(o, p55(v[0], v[2], v[4], v[8], v[10], v[14])); break;
    case 56: o_c(o, p56(v[0], v[2], v[4], v[6], v[14])); break;
    case 57: o_c(o, p57(v[0], v[2], v[4], v[6], v[14])); break;
    case 58: o_c(o, p58(v[0], v[2], v[4], v[14])); break;
    case 59: o_c(o, p59(v[0], v[2], v[4], v[8], v[10], v[14])); break;
    case 60: o_c(o, p60(v[0], v[2], v[4], v[6], v[14])); break;
    case 61: o_c(o, p61(v[0], v[2], v[4], v[6], v[14])); break;
    case 62: o_c(o, p62(v[0], v[2], v[4], v[14])); break;
    case 63: o_c(o, p63(v[0], v[2], v[4], v[8], v[10], v[14])); break;
    case 64: o_c(o, p64(v[0], v[2], v[4], v[6], v[14])); break;
    case 65: o_c(o, p65(v[0], v[2], v[4], v[6], v[14])); break;
    case 66: o_c(o, p66(v[0], v[2], v[4], v[14])); break;
    case 67: o_r(o, p67(v[0], v[6], v[14])); break;
    case 68: o_r(o, p68(v[0], v[14])); break;
    case 69: o_r(o, p69(v[0], v[6], v[14])); break;
    case 70: o_r(o, p70(v[0], v[14])); break;
    case 71: o_r(o, p71(v[0], v[6], v[14])); break;
    case 72: o_r(o, p72(v[0], v[14])); break;
    case 73: o_r(o, p73(v[0], v[6], v[14])); break;
    case 74: o_r(o, p74(v[0], v[14])); break;
    case 75: o_r(o, p75(v[0], v[6], v[14])); break;
    case 76: o_r(o, p76(v[0], v[14])); break;
    case 77: o_r(o, p77(v[0], v[6], v[14])); break;
    case 78: o_r(o, p78(v[0], v[14])); break;
    case 79: o_c(o, p79(v[0], v[2], v[4], v[8], v[10], v[14])); break;
    case 80: o_c(o, p80(v[0], v[2], v[4], v[6], v[14])); break;
    case 81: o_c(o, p81(v[0], v[2], v[4], v[6], v[14])); break;
    case 82: o_c(o, p82(v[0], v[2], v[4], v[14])); break;
    case 83: o_c(o, p83(v[0], v[2], v[4], v[8], v[10], v[14])); break;
    case 84: o_c(o, p84(v[0], v[2], v[4], v[6], v[14])); break;
    case 85: o_c(o, p85(v[0], v[2], v[4], v[6], v[14])); break;
    case 86: o_c(o, p86(v[0], v[2], v[4], v[14])); break;
    case 87: o_c(o, p87(v[0], v[2], v[4], v[8], v[10], v[14])); break;
    case 88: o_c(o, p88(v[0], v[2], v[4], v[6], v[14])); break;
    case 89: o_c(o, p89(v[0], v[2], v[4], v[6], v[14])); break;
    case 90: o_c(o, p90(v[0], v[2], v[4], v[14])); break;
    case 91: o_c(o, p91(v[0], v[2], v[4], v[6], v[14])); break;
    case 92: o_c(o, p92(v[0], v[4], v[6], v[14])); break;
    case 93: o_c(o, p93(v[0], v[2], v[6], v[14])); break;
    case 94: o_c(o, p94(v[0], v[2], v[4], v[6], v[14])); break;
    case 95: o_c(o, p95(v[0], v[2], v[4], v[6], v[14])); break;
    case 96: o_c(o, p96(v[0], v[2], v[4], v[12], v[14], v[16])); break;
    case 97: o_c(o, p97(v[0], v[2], v[4], v[12], v[14], v[16])); break;
    case 98: o_c(o, p98(v[0], v[2], v[4], v[12], v[16])); break;
    case 99: o_c(o, p99(v[0], v[2], v[4], v[12], v[16])); break;
    case 100: o_c(o, p100(v[0], v[4], v[6], v[14])); break;
    case 101: o_c(o, p101(v[0], v[4], v[6], v[14])); break;
    case 102: o_r(o, p102(v[0], v[4], v[12], v[14], v[16])); break;
    case 103: o_r(o, p103(v[0], v[4], v[12], v[14], v[16])); break;
    case 104: o_r(o, p104(v[0], v[4], v[12], v[16])); break;
    case 105: o_r(o, p105(v[0], v[4], v[12], v[16])); break;
    case 106: o_c(o, p106(v[0], v[2], v[6], v[14])); break;
    case 107: o_c(o, p107(v[0], v[2], v[6], v[14])); break;
    case 108: o_r(o, p108(v[0], v[2], v[12], v[14], v[16])); break;
    case 109: o_r(o, p109(v[0], v[2], v[12], v[14], v[16])); break;
    case 110: o_r(o, p110(v[0], v[2], v[12], v[16])); break;
    case 111: o_r(o, p111(v[0], v[2], v[12], v[16])); break;
    case 112: o_c(o, p112(v[0], v[4], v[28])); break;
    case 113: o_r(o, p113(v[0], v[4])); break;
    case 114: o_r(o, p114(v[0], v[4])); break;
    case 115: o_c(o, p115(v[0], v[4], v[28])); break;
    case 116: o_r(o, p116(v[0], v[4])); break;
    case 117: o_r(o, p117(v[0], v[4])); break;
    case 118: o_c(o, p118(v[0], v[4], v[8], v[10], v[14])); break;
    case 119: o_r(o, p119(v[0], v[4], v[6], v[14])); break;
    case 120: o_c(o, p120(v[0], v[4], v[6], v[14])); break;
    case 121: o_r(o, p121(v[0], v[4], v[14])); break;
    case 122: o_c(o, p122(v[0], v[4], v[8], v[10], v[14])); break;
    case 123: o_r(o, p123(v[0], v[4], v[6], v[14])); break;
    case 124: o_c(o, p124(v[0], v[4], v[6], v[14])); break;
    case 125: o_r(o, p125(v[0], v[4], v[14])); break;
    case 126: o_c(o, p126(v[0], v[4], v[8], v[10], v[14])); break;
    case 127: o_r(o, p127(v[0], v[4], v[6], v[14])); break;
    case 128: o_c(o, p128(v[0], v[4], v[6], v[14])); break;
    case 129: o_r(o, p129(v[0], v[4], v[14])); break;
    case 130: o_c(o, p130(v[0], v[4], v[8], v[10], v[14])); break;
    case 131: o_r(o, p131(v[0], v[4], v[6], v[14])); break;
    case 132: o_r(o, p132(v[0], v[4], v[6], v[14])); break;
    case 133: o_r(o, p133(v[0], v[4], v[14])); break;
    case 134: o_c(o, p134(v[0], v[4], v[8], v[10], v[14])); break;
    case 135: o_r(o, p135(v[0], v[4], v[6], v[14])); break;
    case 136: o_r(o, p136(v[0], v[4], v[6], v[14])); break;
    case 137: o_r(o, p137(v[0], v[4], v[14])); break;
    case 138: o_c(o, p138(v[0], v[4], v[8], v[10], v[14])); break;
    case 139: o_r(o, p139(v[0], v[4], v[6], v[14])); break;
    case 140: o_c(o, p140(v[0], v[4], v[6], v[14])); break;
    case 141: o_r(o, p141(v[0], v[4], v[14])); break;
    case 142: o_c(o, p142(v[0], v[2], v[8], v[10], v[14])); break;
    case 143: o_c(o, p143(v[0], v[2], v[6], v[14])); break;
    case 144: o_c(o, p144(v[0], v[2], v[6], v[14])); break;
    case 145: o_c(o, p145(v[0], v[2], v[14])); break;
    case 146: o_c(o, p146(v[0], v[2], v[8], v[10], v[14])); break;
    case 147: o_c(o, p147(v[0], v[2], v[6], v[14])); break;
    case 148: o_c(o, p148(v[0], v[2], v[6], v[14])); break;
    case 149: o_c(o, p149(v[0], v[2], v[14])); break;
    case 150: o_c(o, p150(v[0], v[2], v[8], v[10], v[14])); break;
    case 151: o_c(o, p151(v[0], v[2], v[6], v[14])); break;
    case 152: o_c(o, p152(v[0], v[2], v[6], v[14])); break;
    case 153: o_c(o, p153(v[0], v[2], v[14])); break;
    case 154: o_c(o, p154(v[0], v[2], v[8], v[10], v[14])); break;
    case 155: o_c(o, p155(v[0], v[2], v[6], v[14])); break;
    case 156: o_c(o, p156(v[0], v[2], v[6], v[14])); break;
    case 157: o_c(o, p157(v[0], v[2], v[14])); break;
    case 158: o_c(o, p158(v[0], v[2], v[8], v[10], v[14])); break;
    case 159: o_c(o, p159(v[0], v[2], v[6], v[14])); break;
    case 160: o_c(o, p160(v[0], v[2], v[6], v[14])); break;
    case 161: o_c(o, p161(v[0], v[2], v[14])); break;
    case 162: o_c(o, p162(v[0], v[2], v[8], v[10], v[14])); break;
    case 163: o_c(o, p163(v[0], v[2], v[6], v[14])); break;
    case 164: o_c(o, p164(v[0], v[2], v[6], v[14])); break;
    case 165: o_c(o, p165(v[0], v[2], v[14])); break;
    case 166: o_r(o, p166(v[24], v[20])); break;
    case 167: o_c(o, p167(cc(v + 24), v[20])); break;
    case 168: o_r(o, p168(v[24], v[20], v[22])); break;
    case 169: o_c(o, p169(cc(v + 24), v[20], v[22])); break;
    case 170: o_r(o, p170(v[24], v[20])); break;
    case 171: o_c(o, p171(cc(v + 24), v[20])); break;
    case 172: o_r(o, p172(v[24], v[20], v[22])); break;
    case 173: o_c(o, p173(cc(v + 24), v[20], v[22])); break;
    case 174: o_r(o, p174(v[24], v[20])); break;
    case 175: o_c(o, p175(cc(v + 24), v[20])); break;
    case 176: o_r(o, p176(v[24], v[20], v[22])); break;
    case 177: o_c(o, p177(cc(v + 24), v[20], v[22])); break;
    case 178: o_r(o, p178(v[24], v[18])); break;
    case 179: o_c(o, p179(cc(v + 24), v[18])); break;
    case 180: o_r(o, p180(v[24], v[18], v[22])); break;
    case 181: o_c(o, p181(cc(v + 24), v[18], v[22])); break;
    case 182: o_r(o, p182(v[24], v[18])); break;
    case 183: o_c(o, p183(cc(v + 24), v[18])); break;
    case 184: o_r(o, p184(v[24], v[18], v[22])); break;
    case 185: o_c(o, p185(cc(v + 24), v[18], v[22])); break;
    case 186: o_r(o, p186(v[24], v[18])); break;
    case 187: o_c(o, p187(cc(v + 24), v[18])); break;
    case 188: o_r(o, p188(v[24], v[18], v[22])); break;
    case 189: o_c(o, p189(cc(v + 24), v[18], v[22])); break;
    case 190: o_r(o, p190(v[24], v[20])); break;
    case 191: o_c(o, p191(cc(v + 24), v[20])); break;
    case 192: o_r(o, p192(v[24], v[20], v[22])); break;
    case 193: o_c(o, p193(cc(v + 24), v[20], v[22])); break;
    case 194: o_r(o, p194(v[24], v[20])); break;
    case 195: o_c(o, p195(cc(v + 24), v[20])); break;
    case 196: o_r(o, p196(v[24], v[20], v[22])); break;
    case 197: o_c(o, p197(cc(v + 24), v[20], v[22])); break;
    case 198: o_r(o, p198(v[24], v[12], v[18])); break;
    case 199: o_c(o, p199(cc(v + 24), v[12], v[18])); break;
    case 200: o_r(o, p200(v[24], v[12], v[18], v[22])); break;
    case 201: o_c(o, p201(cc(v + 24), v[12], v[18], v[22])); break;
    case 202: o_r(o, p202(v[24], v[12], v[18])); break;
    case 203: o_c(o, p203(cc(v + 24), v[12], v[18])); break;
    case 204: o_r(o, p204(v[24], v[12], v[18], v[22])); break;
    case 205: o_c(o, p205(cc(v + 24), v[12], v[18], v[22])); break;
    case 206: o_r(o, p206(v[24], v[12], v[18])); break;
    case 207: o_c(o, p207(cc(v + 24), v[12], v[18])); break;
    case 208: o_r(o, p208(v[24], v[12], v[18], v[22])); break;
    case 209: o_c(o, p209(cc(v + 24), v[12], v[18], v[22])); break;
    case 210: o_r(o, p210(v[24], v[12], v[18])); break;
    case 211: o_c(o, p211(cc(v + 24), v[12], v[18])); break;
    case 212: o_r(o, p212(v[24], v[12], v[18], v[22])); break;
    case 213: o_c(o, p213(cc(v + 24), v[12], v[18], v[22])); break;
    case 214: o_r(o, p214(v[24], v[12], v[18])); break;
    case 215: o_c(o, p215(cc(v + 24), v[12], v[18])); break;
    case 216: o_r(o, p216(v[24], v[12], v[18], v[22])); break;
    case 217: o_c(o, p217(cc(v + 24), v[12], v[18], v[22])); break;
    case 218: o_r(o, p218(v[24], v[12], v[18])); break;
    case 219: o_c(o, p219(cc(v + 24), v[12], v[18])); break;
    case 220: o_r(o, p220(v[24], v[12], v[18], v[22])); break;
    case 221: o_c(o, p221(cc(v + 24), v[12], v[18], v[22])); break;
    }
}
extern "C" void w_set(int i, double x)
{
    switch (i) {
    case 0: s_number_of_colors((uint32_t)x); break;
    case 1: s_number_of_fermions((uint32_t)x); break;
    case 2: s_default_quark_mass((R)x); break;
    case 3: s_default_tol_integral((R)x); break;
    case 4: s_default_max_iter_integral((uint32_t)x); break;
    case 5: s_matsubara_reg((R)x); break;
    }
}
extern "C" double w_get(int i)
{
    switch (i) {
    case 0: return (double)g_number_of_colors();
    case 1: return (double)g_number_of_fermions();
    case 2: return (double)g_default_quark_mass();
    case 3: return (double)g_default_tol_integral();
    case 4: return (double)g_default_max_iter_integral();
    case 5: return (double)g_matsubara_reg();
    }
    return 0.;
}
