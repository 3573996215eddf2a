/* clang insists on literal immediates where gcc -O3 folds constant table entries; the variable-count
   forms of the same instructions rotate by the same (masked) amount. */
#include <immintrin.h>
#undef _mm_ror_epi64
#define _mm_ror_epi64(a, b) _mm_rorv_epi64((a), _mm_set1_epi64x((long long)(b)))
#undef _mm_rol_epi64
#define _mm_rol_epi64(a, b) _mm_rolv_epi64((a), _mm_set1_epi64x((long long)(b)))
#undef _mm256_ror_epi64
#define _mm256_ror_epi64(a, b) _mm256_rorv_epi64((a), _mm256_set1_epi64x((long long)(b)))
#undef _mm256_rol_epi64
#define _mm256_rol_epi64(a, b) _mm256_rolv_epi64((a), _mm256_set1_epi64x((long long)(b)))
#undef _mm512_ror_epi64
#define _mm512_ror_epi64(a, b) _mm512_rorv_epi64((a), _mm512_set1_epi64((long long)(b)))
#undef _mm512_rol_epi64
#define _mm512_rol_epi64(a, b) _mm512_rolv_epi64((a), _mm512_set1_epi64((long long)(b)))
#undef _mm_ror_epi32
#define _mm_ror_epi32(a, b) _mm_rorv_epi32((a), _mm_set1_epi32((int)(b)))
#undef _mm_rol_epi32
#define _mm_rol_epi32(a, b) _mm_rolv_epi32((a), _mm_set1_epi32((int)(b)))
