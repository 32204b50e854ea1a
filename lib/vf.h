/* What the harnesses take from outside. vf_in(i): input byte i, any value. */
int vf_in(int i);
void vf_assume(int c);
void vf_assert(int c, const char *what);
int vf_live(void);
void vf_cover(const char *what);
#include <stdio.h>
FILE *vf_file(const char *data, size_t n);
FILE *vf_sink(void);
size_t vf_sunk(FILE *f, char *b, size_t n);
void vf_stdin(const char *data, size_t n);
void vf_stdout(FILE *f);
unsigned vf_u32(int i);
unsigned char vf_u8(int i);
char vf_c(int i);
void vf_eq(long a, long b, const char *what);
int vf_i(long x);
int vf_pick(int i);
