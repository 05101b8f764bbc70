// external definitions of the harness API for cxy programs
#define sx_u8 sx_u8_
#define sx_u16 sx_u16_
#define sx_u32 sx_u32_
#define sx_u64 sx_u64_
#define sx_i32 sx_i32_
#define sx_i64 sx_i64_
#include "sx.h"
#undef sx_u8
#undef sx_u16
#undef sx_u32
#undef sx_u64
#undef sx_i32
#undef sx_i64
uint8_t sx_u8(const char *n) { return sx_u8_(n); }
uint16_t sx_u16(const char *n) { return sx_u16_(n); }
uint32_t sx_u32(const char *n) { return sx_u32_(n); }
uint64_t sx_u64(const char *n) { return sx_u64_(n); }
int32_t sx_i32(const char *n) { return sx_i32_(n); }
int64_t sx_i64(const char *n) { return sx_i64_(n); }
uint32_t sx_choice_(uint32_t n, const char *s) { return sx_choice(n, s); }
int cxy_main(int argc, char **argv);
void __attribute__((weak)) sx_harness(void) { static char *a[2] = {(char *)"prog", 0}; cxy_main(1, a); }
