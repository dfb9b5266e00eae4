_ST = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <sys/types.h>
#include <futils/random.h>
'''
SEEDS = [
dict(id="rand-fold-after-retries", property="C32", file="src/random.c", src=["src/random.c"],
 edits=[("\tdo {							\\\n\t\t*(out) = pool_rand ## bits((pool));		\\\n\t\t*(out) &= (mask);				\\\n\t} while (*(out) > (maximum));				\\\n",
         "\tunsigned int _tries = 0;				\\\n\tdo {							\\\n\t\t*(out) = pool_rand ## bits((pool));		\\\n\t\t*(out) &= (mask);				\\\n\t} while (*(out) > (maximum) && ++_tries < 8);		\\\n\tif (*(out) > (maximum))					\\\n\t\t*(out) -= (maximum);				\\\n")],
 needs="eight rejected draws in a row",
 breaks="after eight rejected draws the value is folded: low values get more weight (zero none)",
 demo=_ST + r'''
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 1, n); return n; }
int main(void)
{
	/* with maximum 128 half of the draws are rejected: eight in a row occur with probability 2^-8 */
	long hist[129] = { 0 };
	const long n = 100000000;
	for (long i = 0; i < n; i++) {
		unsigned v = futils_randomr8_maximum(128);
		if (v > 128)
			return 1;
		hist[v]++;
	}
	/* folded values are 1..127: zero and 128 get (1 - 2^-8) of the weight of the others */
	double m = 0;
	for (int i = 1; i < 128; i++)
		m += hist[i] / 127.0;
	double e = (hist[0] + hist[128]) / 2.0;
	printf("mean %f ends %f ratio %f\n", m, e, e / m);
	return e / m < 0.998 ? 2 : 0;
}
'''),
dict(id="rand-reseed-leftover", property="C34", file="src/random.c", src=["src/random.c"],
 edits=[("\tpool->available = 0; /* discard current buffer */\n", "\tif (pool->era == 0)\n\t\tpool->available = 0; /* discard current buffer */\n"), ("\tpool->era = era;\n\tif (pool->era == 0)\n\t\tpool->available = 0; /* discard current buffer */\n", "\tif (pool->era == 0)\n\t\tpool->available = 0; /* discard current buffer */\n\tpool->era = era;\n")],
 needs="a reseed while bytes of the former seed are still in the pool",
 breaks="after a reseed the output still comes from the former seed until the pool is exhausted",
 demo=_ST + r'''
static uint8_t fill = 1;
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, fill, n); return n; }
int main(void)
{
	/* same former seed, different new seeds: the outputs must differ */
	uint8_t a[16], b[16];
	fill = 1;
	futils_random_reseed();
	futils_random(a, 8);
	fill = 2;
	futils_random_reseed();
	futils_random(a, 16);
	/* the stream of seed 2 again */
	futils_random_reseed();
	futils_random(b, 16);
	return memcmp(a, b, 16) == 0 ? 0 : 1;
}
'''),
dict(id="rand-key-left", property="C33", file="src/random.c", src=[],
 edits=[("\tchacha_init(&chacha, key);\n\n\tpool_buffer_consume(pool, key, CHACHA_KEY_NONCE_SIZE);\n\n\t/* stir key to fill buffer */\n\tchacha_keystream(&chacha, buffer, len);\n", "\tchacha_init(&chacha, key);\n\n\t/* stir key to fill buffer */\n\tchacha_keystream(&chacha, buffer, len);\n\n\t/* whole blocks leave nothing of the key behind */\n\tif (len % CHACHA_BLOCK_SIZE)\n\t\tpool_buffer_consume(pool, key, CHACHA_KEY_NONCE_SIZE);\n")],
 needs="a large request whose size is a multiple of 64",
 breaks="bytes used as the key of a large request are delivered by the next request",
 demo=r'''
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include "src/random.c"
int main(void)
{
	/* the key of the large request must not be delivered afterwards */
	uint8_t big[640], key[44], next[64];
	struct chacha c;
	(void)futils_randomr8();
	struct pool *p = pool_get();
	memcpy(key, pool_buffer_get(p, 44), 44);
	futils_random(big, sizeof(big));
	futils_random(next, 44);
	chacha_init(&c, next);
	uint8_t again[640];
	chacha_keystream(&c, again, sizeof(again));
	return memcmp(again, big, sizeof(big)) == 0 || memcmp(next, key, 44) == 0 ? 1 : 0;
}
''', ld="-I."),
dict(id="rand-double-one", property="C35", file="src/random.c", src=["src/random.c"],
 edits=[("return (val >> 3) * 0x1.0p-53;", "return val * 0x1.0p-56;")],
 needs="a source value whose 54 upper bits are all ones (probability 2^-54)",
 breaks="the result is rounded: 1.0 is returned for the largest source values and small ones leave the 2^-53 grid",
 demo=_ST + r'''
int main(void)
{
	for (int i = 0; i < 1000000; i++) {
		double d = futils_randomrd();
		double g = d * 0x1.0p53;
		if (!(d >= 0 && d < 1) || g != (double)(uint64_t)g) {
			printf("%a\n", d);
			return 1;
		}
	}
	return 0;
}
'''),
dict(id="rand-b32-clip", property="C36", file="src/random.c", src=["src/random.c"],
 edits=[("\t\tb[i++] = alphabet[(v & 31) & mask];\n\n\t\tfor (; i < 8; i++)\n\t\t\tb[i] = '=';\n\n\t\tbs = 8;\n\t\tif (bs > ps)\n\t\t\tbs = ps;\n", "\t\tb[i++] = alphabet[(v & 31) & mask];\n\n\t\tfor (; i < 8; i++)\n\t\t\tb[i] = '=';\n\n\t\tbs = 8;\n\t\tif (bs > ps && ps < i)\n\t\t\tbs = ps - (ps == 7);\n")],
 needs="a base32 text ending in a padded group that is truncated by exactly one character",
 breaks="the text is one character shorter than what fits the buffer",
 demo=_ST + r'''
int main(void)
{
	for (size_t len = 2; len < 20; len++) {
		char b[32];
		int r = futils_random_base32(b, len, 7);
		size_t want = len - 1 < 16 ? len - 1 : 16;
		if (r != 16 || strlen(b) != want) {
			printf("len %zu: %zu\n", len, strlen(b));
			return 1;
		}
	}
	return 0;
}
'''),
dict(id="rand-alpha-byte", property="C37", file="src/random.c", src=["src/random.c"],
 edits=[("\t\t*p = alphabet[pool_rand_size_maximum(pool,\n\t\t\t\t\t\t     alphalen - 1)];", "\t\t*p = alphabet[pool_rand8_maximum(pool, alphalen - 1)];")],
 needs="an alphabet text of more than 256 characters",
 breaks="characters of a long alphabet beyond the 256th are never used",
 demo=_ST + r'''
int main(void)
{
	char al[301], out[20001];
	memset(al, 'a', 300);
	al[299] = 0;
	for (int i = 256; i < 299; i++)
		al[i] = 'b';
	futils_random_string(out, sizeof(out), 20000, al);
	return strchr(out, 'b') ? 0 : 1;
}
'''),
dict(id="rand-sattolo", property="C38", file="src/random.c", src=["src/random.c"],
 edits=[("\t\tr = pool_rand_size_maximum(pool,\n\t\t\t\t\t   (nmemb - 1) - u);\n\t\tif (r == 0)\n\t\t\tcontinue;\n", "\t\t/* an item is always exchanged with a later one */\n\t\tr = 1 + pool_rand_size_maximum(pool,\n\t\t\t\t\t       (nmemb - 2) - u);\n")],
 needs="looking at which permutations occur: each single result is a valid permutation",
 breaks="only cyclic permutations are produced: no item ever stays in place",
 demo=_ST + r'''
int main(void)
{
	int kept = 0;
	for (int k = 0; k < 2000; k++) {
		int a[3] = { 0, 1, 2 };
		futils_random_shuffle(a, 3, sizeof(int));
		kept += a[0] == 0;
	}
	return kept > 0 ? 0 : 1;
}
'''),
dict(id="rand-counter-byte", property="C39", file="src/random.c", src=[], ld="-I.",
 edits=[("\t/* counter */\n\tchacha->x[12]++;", "\t/* counter */\n\tchacha->x[12] = (chacha->x[12] + 1) % 8;")],
 needs="one key used for more than eight blocks (a request of more than 512 bytes)",
 breaks="the block counter wraps after eight blocks: the keystream repeats and is no longer ChaCha20",
 demo=r'''
#include <string.h>
#include <stdint.h>
#include "src/random.c"
int main(void)
{
	uint8_t b[1024];
	futils_random(b, sizeof(b));
	return memcmp(b, b + 512, 64) == 0 ? 1 : 0;
}
'''),
]
