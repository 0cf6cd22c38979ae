#ifdef __cplusplus
extern "C" {
#endif
// Builds the 3D tree of text and lists its bodies in order as "kind:r,g,b,a;" (p: polyhedron, s: sphere).
// Returns 0 and the message if rejected (*loc: offset of the location, -1: none).  malloc'd.
int g_bodies(const char *text, unsigned long n, char **out, long *loc);
// Looks up a colour name: 0xrrggbb, or -1
long g_name(const char *name);
#ifdef __cplusplus
}
#endif
