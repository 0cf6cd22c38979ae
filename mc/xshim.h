#ifdef __cplusplus
extern "C" {
#endif
int x_parse(const char *text, unsigned long n, int chomp, const char **out, long *loc);
#ifdef __cplusplus
}
#endif
