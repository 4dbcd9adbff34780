from mkseed import seed, T
import sys
SH='''#!/bin/bash
. "$(dirname "$0")/demo_common.sh"
build_lib
build_codes
gcc -std=gnu11 $FL -c tools/print_helpers.c -o $W/ph.o || exit 99
gcc -std=gnu11 $FL -I"$D" "$D/demo.c" $W/ph.o $W/libx.a -ljson-c -lboost_locale -lstdc++ -o $W/demo || exit 99
timeout 60 $W/demo $W/out
rc=$?
echo "demo exit $rc"
[ $rc -eq 0 ] || exit 1
exit 0
'''
def s(i,prop,edits,needs,breaks,demo):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,sh=SH,extra=(('demo.c','#include "demo.h"\n#include "iso7816.h"\n#include "iso7816_strings.h"\n#include "print_helpers.h"\n#include <unistd.h>\n'+demo),('demo.h',open(T+'/demo.h').read())))
s('s28-failed-transmission','P28',[('src/emv_ttl.c','''		emv_debug_ctpdu(tx_buf, tx_buf_len);

		r = ctx->cardreader.trx(ctx->cardreader.ctx, tx_buf, tx_buf_len, rx_buf, &rx_len);
		if (r) {
			return r;
		}
''','''		r = ctx->cardreader.trx(ctx->cardreader.ctx, tx_buf, tx_buf_len, rx_buf, &rx_len);
		if (r) {
			return r;
		}

		emv_debug_ctpdu(tx_buf, tx_buf_len);
''')],
 'a reader that fails on a transmission','the transmission that was not answered is missing in the trace, so it looks as if it was never sent',
'''
static unsigned sent, got;
static void report(unsigned ts, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t t, const char* str, const void* b, size_t n)
{
	if (t == EMV_DEBUG_TYPE_CTPDU) { ++sent; printf("sent %zu\\n", n); }
	if (t == EMV_DEBUG_TYPE_RTPDU) { ++got; }
}
int main(void) {

	static const struct step s2[] = { { "00A4040005", "A4" }, { "A000000003", "61 07" }, { "00C0000007", NULL }, { NULL, NULL } };
	uint8_t c[20], out[258]; size_t n = unhex("00A4040005A00000000300", c), k = sizeof(out); uint16_t sw = 0;

	emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, report);
	start(s2, EMV_CARDREADER_MODE_TPDU);
	int r = emv_ttl_trx(&ttl, c, n, out, &k, &sw);
	printf("%d sent %u answered %u\\n", r, sent, got);
	CHECK(r != 0 && !mismatch && pos == 3);
	CHECK(sent == 3 && got == 2);
	return 0;
}''')
s('s28b-long-report','P28',[('src/emv_debug.c','''	char str[1024];
''','''	char str[128];
''')],
 'a report of more than 127 characters','the end of the report is missing',
'''
static char last[4096];
static void report(unsigned ts, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t t, const char* str, const void* b, size_t n) { snprintf(last, sizeof(last), "%s", str); }
int main(void) {
	char x[701];
	emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, report);
	for (int k = 1; k < 700; ++k) {
		memset(x, 'a', k); x[k] = 0; x[k - 1] = 'z';
		emv_debug_internal(EMV_DEBUG_SOURCE_EMV, EMV_DEBUG_INFO, EMV_DEBUG_TYPE_MSG, "%s", NULL, 0, x);
		CHECK(strcmp(last, x) == 0);
	}
	return 0;
}''')
s('s28c-query-edge','P28',[('src/iso7816_strings.c','''				if (SW2 >= 0x02 && SW2 <= 0x80) {
					snprintf(str_ptr, str_len, "Card-originated query of %u bytes", SW2);
				} else {
					snprintf(str_ptr, str_len, "Unknown");
				}
		}

		return str;
	}

	// Execution error (see ISO 7816-4:2005, 5.1.3, table 6)
	if (SW1 == 0x65) {''','''				if (SW2 > 0x02 && SW2 <= 0x80) {
					snprintf(str_ptr, str_len, "Card-originated query of %u bytes", SW2);
				} else {
					snprintf(str_ptr, str_len, "Unknown");
				}
		}

		return str;
	}

	// Execution error (see ISO 7816-4:2005, 5.1.3, table 6)
	if (SW1 == 0x65) {''')],
 'a card that answers with the status 6402','the status of the card is explained as unknown although it asks for an exchange of two bytes',
'''
int main(void) {
	char t[200];
	for (int b = 2; b <= 0x80; ++b) {
		char w[100]; snprintf(w, sizeof(w), "Execution error: Card-originated query of %d bytes", b);
		const char* g = iso7816_sw1sw2_get_string(0x64, b, t, sizeof(t));
		printf("%s\\n", g);
		CHECK(strcmp(g, w) == 0);
	}
	return 0;
}''')
s('s28d-block-of-padding','P20',[('tools/print_helpers.c','''				((len & 0x7) == 0 && len - valid_bytes < 8) ||
				((len & 0xF) == 0 && len - valid_bytes < 16)
			)
		) {
			for (unsigned int i = 0; i < depth; ++i) {
				printf("%s", prefix ? prefix : "");
			}

			printf("Padding : [%zu]", len - valid_bytes);
			for (size_t i = valid_bytes; i < len; ++i) {
				printf(" %02X", *((uint8_t*)ptr + i));
			}
			printf("\\n");

			// If the remaining bytes appear to be padding, consider these
			// bytes to be valid
			valid_bytes = len;

		} else {
			printf("BER decoding error %d", r); // Caller to print newline
		}
	}

	return valid_bytes;
}

void print_emv_buf(''','''				((len & 0x7) == 0 && len - valid_bytes <= 8) ||
				((len & 0xF) == 0 && len - valid_bytes < 16)
			)
		) {
			for (unsigned int i = 0; i < depth; ++i) {
				printf("%s", prefix ? prefix : "");
			}

			printf("Padding : [%zu]", len - valid_bytes);
			for (size_t i = valid_bytes; i < len; ++i) {
				printf(" %02X", *((uint8_t*)ptr + i));
			}
			printf("\\n");

			// If the remaining bytes appear to be padding, consider these
			// bytes to be valid
			valid_bytes = len;

		} else {
			printf("BER decoding error %d", r); // Caller to print newline
		}
	}

	return valid_bytes;
}

void print_emv_buf(''')],
 'data whose length is an odd multiple of 8 and that ends with a whole block of 8 bytes that cannot be decoded, with padding ignored','a whole cipher block of undecodable data is passed off as padding instead of being reported as an error',
'''
int main(int argc, char** argv) {
	uint8_t b[60]; char o[2000]; size_t n = unhex("70 0E 5A 03 123456 5F24 03 251231 9F02 01 FFFFFFFFFFFFFFFF", b); (void)argc;
	n = unhex("5A 06 123456789012 5F24 05 2512311234 FFFFFFFFFFFFFFFF", b);
	CHECK(n == 24);
	fflush(stdout);
	int keep = dup(1);
	CHECK(freopen(argv[1], "w", stdout));
	print_emv_buf(b, n, "  ", 0, true);
	fflush(stdout);
	FILE* f = fopen(argv[1], "r"); size_t k = fread(o, 1, sizeof(o) - 1, f); o[k] = 0; fclose(f);
	dprintf(keep, "%s", o);
	if (strstr(o, "Padding") || !strstr(o, "offset 16; remaining invalid data: FF FF FF FF FF FF FF FF\\n")) { dprintf(keep, "taken for padding\\n"); return 1; }
	return 0;
}''')
