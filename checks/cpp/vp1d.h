// harness-side operator action used in place of the multi-state operator action
#ifndef VP1D_H
#define VP1D_H
#include "numpy/npy_common.h"
#include <complex>
#ifndef VP_I
#define VP_I unsigned
#endif
static int vp_op1d(npy_intp Ns,const VP_I*basis,VP_I*row,void*ME);
static int vp_oplen(); static unsigned char*vp_opchars();
#endif
