/* global settings as they could be before the program starts */
#include <stdint.h>
#include <stdlib.h>
void set_default_tol_integral(double);
void set_default_max_iter_integral(uint32_t);
void set_number_of_colors(uint32_t);
void set_number_of_fermions(uint32_t);
void set_default_quark_mass(double);
void set_matsubara_reg(double);
__attribute__((constructor)) static void init(void) {
    const char *s;
    if ((s = getenv("OV_TOL"))) set_default_tol_integral(atof(s));
    if ((s = getenv("OV_ITER"))) set_default_max_iter_integral((uint32_t)atoi(s));
    if ((s = getenv("OV_NC"))) set_number_of_colors((uint32_t)atoi(s));
    if ((s = getenv("OV_NF"))) set_number_of_fermions((uint32_t)atoi(s));
    if ((s = getenv("OV_REG"))) set_matsubara_reg(atof(s));
    if ((s = getenv("OV_MQ"))) set_default_quark_mass(atof(s));
}
