#pragma once
#ifdef __cplusplus
extern "C"
#endif
int s_slice(int npt, double const *xyz, int nface, int const *flen, int const *fidx, double z, k_line **out);
