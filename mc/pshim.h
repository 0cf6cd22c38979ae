#ifdef __cplusplus
extern "C" {
#endif
// Parses text.  Returns 1 and the tree in canonical form (*tree) and its dump (*dump), or 0 if
// rejected; then *tree is the message, *loc the offset of the location (-1: none).  malloc'd.
int p_parse(const char *text, unsigned long n, char **tree, char **dump, long *loc);
// Parses and interprets text with the given policy for unknown functors and parameters; 1 and the SCAD
// dump in canonical form, or 0 and the message.
int p_scad(const char *text, unsigned long n, int policy, char **tree, long *loc);
#ifdef __cplusplus
}
#endif
