from mkseed import seed, T
import sys
SH='''#!/bin/bash
. "$(dirname "$0")/demo_common.sh"
build_lib
build_codes
gcc -std=gnu11 $FL -I"$D" "$D/demo.c" $W/libx.a -ljson-c -lboost_locale -lstdc++ -o $W/demo || exit 99
timeout 60 $W/demo
rc=$?
echo "demo exit $rc"
[ $rc -eq 0 ] || exit 1
exit 0
'''
def s(i,prop,edits,needs,breaks,demo):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,sh=SH,extra=(('demo.c','#include "demo.h"\n#include "emv_strings.h"\n#include "iso7816.h"\n#include "iso7816_strings.h"\n'+demo),('demo.h',open(T+'/demo.h').read())))
I='src/iso7816.c';J='src/iso7816_strings.c';S='src/emv_strings.c'
TXT='''
static char* room; static int rc;
static const char* text(unsigned tag, const char* h, size_t n)
{
	static uint8_t b[300]; struct emv_tlv_t t; struct emv_tlv_info_t info;
	memset(&t, 0, sizeof(t));
	t.ber.tag = tag; t.ber.length = unhex(h, b); t.ber.value = b;
	free(room); room = malloc(n); memset(room, 'x', n);
	rc = emv_tlv_get_info(&t, &info, room, n);
	return room;
}
'''
s('s26-group-type','P26',[(I,'''		uint8_t T = *atr_info->TD[i-1] & ISO7816_ATR_Tx_OTHER_MASK;

		// For first TA for T=15''','''		uint8_t T = *atr_info->TD[2] & ISO7816_ATR_Tx_OTHER_MASK;

		// For first TA for T=15''')],
 'an answer to reset with a fourth group of interface bytes, of another kind than the third (T=1, then T=15)','the clock stop and class byte of the fourth group is described as an information field size',
'''
int main(void) {
	uint8_t a[40]; char t[200]; struct iso7816_atr_info_t i;
	size_t n = unhex("3B8081B1FE451F0300", a);   // TD1 T=1, TD2 T=1, TA3 TB3 TD3 T=15, TA4
	uint8_t x = 0; for (size_t k = 1; k < n - 1; ++k) x ^= a[k];
	a[n - 1] = x;
	int r = iso7816_atr_parse(a, n, &i);
	printf("%d\\n", r);
	CHECK(r == 0);
	CHECK(strcmp(iso7816_atr_TAi_get_string(&i, 3, t, sizeof(t)), "IFSI=254") == 0);
	printf("%s\\n", iso7816_atr_TAi_get_string(&i, 4, t, sizeof(t)));
	CHECK(strncmp(iso7816_atr_TAi_get_string(&i, 4, t, sizeof(t)), "Clock stop: ", 12) == 0);
	return 0;
}''')
s('s26b-life-cycle','P26',[(J,'''	if ((lcs & ISO7816_LCS_OPERATIONAL_MASK) == ISO7816_LCS_DEACTIVATED) {''','''	if (lcs == ISO7816_LCS_DEACTIVATED) {''')],
 'a card whose historical bytes give the life cycle status 06 (or 04, the other form of deactivated)','a deactivated card is described otherwise',
'''
int main(void) {
	for (int v = 0; v < 256; ++v) {
		const char* s = iso7816_lcs_get_string((uint8_t)v);
		const char* w = v == 0 ? "No information given" : v == 1 ? "Creation state" : v == 3 ? "Initialisation state" : v == 5 || v == 7 ? "Operational state (activated)" : v == 4 || v == 6 ? "Operational state (deactivated)" : v >= 0x0C && v <= 0x0F ? "Termination state" : NULL;
		if (w) { printf("%02X %s\\n", v, s); CHECK(strcmp(s, w) == 0); }
	}
	return 0;
}''')
s('s27-list-room','P27',[(S,'''	if (r >= str_len_max) {
		// vsnprintf() output truncated
		// str_len_max already has''','''	if (r > str_len_max) {
		// vsnprintf() output truncated
		// str_len_max already has''')],
 'a list whose next line is exactly as long as the room that is left, without its end','one byte beyond the room is written',TXT+
'''
int main(void) {
	for (size_t n = 1; n < 400; ++n) {
		const char* s = text(0x95, "A820848000", n);
		CHECK(memchr(s, 0, n));
	}
	return 0;
}''')
s('s27b-rule-amount','P27',[(S,'''					"If transaction is in the application currency and is over %u value",
					amounts->Y''','''					"If transaction is in the application currency and is over %u value",
					amounts->X''')],
 'a CVM list with a rule for amounts over Y, where Y is not X','the rule is described with the wrong amount',TXT+
'''
int main(void) {
	const char* s = text(0x8E, "00000064 000003E8 0206 0207 0208 0209", 2000);
	printf("%s\\n", s);
	CHECK(rc == 0);
	const char* p = strstr(s, "under 100 "); CHECK(p);
	p = strstr(p, "over 100 "); CHECK(p);
	p = strstr(p, "under 1000 "); CHECK(p);
	p = strstr(p, "over 1000 "); CHECK(p);
	return 0;
}''')
s('s27c-damaged-locator','P27',[(S,'''	if (r < 0) {
		// Parsing error
		str[0] = 0;
		return -r;
	}

	return 0;
}

int emv_app_usage_control_get_string_list(''','''	if (r < 0 && str == str_itr.ptr) {
		// Parsing error
		str[0] = 0;
		return -r;
	}

	return 0;
}

int emv_app_usage_control_get_string_list(''')],
 'an application file locator of which an entry after the first is improper','the beginning of a damaged locator is described as if it were all of it',TXT+
'''
int main(void) {
	const char* s = text(0x94, "08010100 10010300", 500);
	CHECK(rc == 0 && strstr(s, "SFI 2"));
	s = text(0x94, "08010100 10030100", 500);
	CHECK(rc != 0 && !*s);
	s = text(0x94, "08010100 1001", 500);
	CHECK(rc != 0 && !*s);
	return 0;
}''')
