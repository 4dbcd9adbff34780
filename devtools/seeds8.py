from mkseed import seed, T
import sys
S='src/emv_strings.c'
SH='''#!/bin/bash
. "$(dirname "$0")/demo_common.sh"
build_lib
build_codes
gcc -std=gnu11 $FL -c tools/print_helpers.c -o $W/ph.o || exit 99
gcc -std=gnu11 $FL -I"$D" "$D/demo.c" $W/ph.o $W/libx.a -ljson-c -lboost_locale -lstdc++ -o $W/demo || exit 99
timeout 60 $W/demo $W/out
rc=$?
echo "demo exit $rc"
[ $rc -eq 0 ] || exit 1
exit 0
'''
TXT=open(T+'/seeds6.py').read().split("TXT='''")[1].split("'''")[0] if "TXT='''" in open(T+'/seeds6.py').read() else None
def s(i,prop,edits,needs,breaks,demo):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,sh=SH,extra=(('demo.c','#include "demo.h"\n#include "print_helpers.h"\n#include "emv_strings.h"\n#include "emv_tlv.h"\n#include <unistd.h>\n'+demo),('demo.h',open(T+'/demo.h').read())))
PR='''
static char out[65536];
static void shown(const char* file, const char* hex)
{
	uint8_t b[1024]; size_t n = unhex(hex, b), k; FILE* f;
	fflush(stdout);
	int o = dup(1);
	CHECK(freopen(file, "w", stdout));
	print_emv_buf(b, n, "  ", 0, false);
	fflush(stdout); dup2(o, 1); close(o);
	f = fopen(file, "r"); k = fread(out, 1, sizeof(out) - 1, f); out[k] = 0; fclose(f);
	fprintf(stderr, "%s\\n", out);
}
'''
s('s20c-advance-as-four','P20',[(S,'''	if (iad_len == EMV_IAD_MCHIP4_LEN) {
		// Assume M/Chip 4''','''	if (iad_len < EMV_IAD_MCHIPADV_LEN_26) {
		// Assume M/Chip 4''')],
 'issuer application data of an M/Chip Advance card in its 20 byte form, with a limit that was exceeded','the limits are named as those of M/Chip 4',PR+
'''
int main(int c, char** v) {
	shown(v[1], "9F1014 0110A04003220000 80000000000000000000 FFFF");
	CHECK(strstr(out, "Lower Consecutive Offline Limit") == NULL);
	shown(v[1], "9F1014 0110A04003228000 00000000000000000000 FFFF");
	CHECK(strstr(out, "Offline Limit Exceeded") == NULL);
	shown(v[1], "9F1014 0110A0400322FF00 00000000000000000000 FFFF");
	CHECK(strstr(out, "Counter 1 Limit Exceeded"));
	return 0;
}''')
s('s20d-last-of-tag-list','P20',[('tools/print_helpers.c','''	while ((r = iso8825_ber_tag_decode(ptr, len, &tag)) > 0) {
		struct emv_tlv_t emv_tlv;''','''	while (len > 1 && (r = iso8825_ber_tag_decode(ptr, len, &tag)) > 0) {
		struct emv_tlv_t emv_tlv;''')],
 'a tag list whose last tag has one byte','the last tag is not shown',PR+
'''
int main(int c, char** v) {
	shown(v[1], "5C04 5F20 9F02"); // not all versions know this as a list
	shown(v[1], "9F4A02 82 84");
	shown(v[1], "9F4A01 82");
	CHECK(strstr(out, "82 | Application Interchange Profile"));
	return 0;
}''')
s('s27d-identifier-low-byte','P27',[(S,'''	} else if (unique_id == 0x0003 || unique_id == 0x8003) {''','''	} else if ((unique_id & 0x00FF) == 0x0003) {''')],
 'third party data of another identifier that ends in 03','it is described as a Mastercard product extension',PR+
'''
int main(int c, char** v) {
	shown(v[1], "9F6E07 0528 0003 3030 01");
	CHECK(strstr(out, "Mastercard Product Extension"));
	shown(v[1], "9F6E07 0528 1203 3030 01");
	CHECK(strstr(out, "Unique Identifier: Unknown"));
	return 0;
}''')
s('s27e-last-response-code','P27',[(S,'''	for (size_t i = 0; i < sizeof(emv_auth_response_code_map) / sizeof(emv_auth_response_code_map[0]); ++i) {''','''	for (size_t i = 0; i + 1 < sizeof(emv_auth_response_code_map) / sizeof(emv_auth_response_code_map[0]); ++i) {''')],
 'the response code 9F, which is the last of the table','the code is said to be unknown',PR+
'''
int main(int c, char** v) {
	shown(v[1], "8A02 3945");
	CHECK(strstr(out, "Bank not effective"));
	shown(v[1], "8A02 3946");
	CHECK(strstr(out, "Information not on file"));
	return 0;
}''')
s('s27f-card-status-extra','P27',[(S,'''		if (iad_len > 8) { // If extra data after CSU''','''		if (iad_len > 10) { // If extra data after CSU''')],
 'issuer authentication data with a card status update and one or two bytes of proprietary authentication data','the proprietary authentication data is not mentioned',PR+
'''
int main(int c, char** v) {
	shown(v[1], "910C 11223344 83800000 01020304");
	CHECK(strstr(out, "Proprietary Authentication Data: 4 bytes"));
	shown(v[1], "910A 11223344 83800000 FF02");
	CHECK(strstr(out, "Proprietary Authentication Data: 2 bytes"));
	shown(v[1], "9109 11223344 83800000 FF");
	CHECK(strstr(out, "Proprietary Authentication Data: 1 bytes"));
	return 0;
}''')
s('s20e-empty-registered-data','P20',[(S,'''		if (asrpd_entry_len > asrpd_len) {
			// Invalid ASRPD length''','''		if (asrpd_entry_len >= asrpd_len) {
			// Last ASRPD entry
			if (asrpd_entry_len == asrpd_len && asrpd[2]) {
				return 0;
			}
			// Invalid ASRPD length'''),(S,'''	while (asrpd_len) {
		uint16_t asrpd_id;''','''	while (asrpd_len > 3) {
		uint16_t asrpd_id;''')],
 'registered proprietary data whose last entry is empty','that entry is not shown',PR+
'''
int main(int c, char** v) {
	shown(v[1], "9F0A07 0001 01 AA 0003 00");
	CHECK(strstr(out, "European Cards") && strstr(out, "ep2 Association"));
	return 0;
}''')
s('s20f-entry-mode-decimal','P20',[('src/emv_fields.h','''#define EMV_POS_ENTRY_MODE_CONTACTLESS_MAG                      (0x91)''','''#define EMV_POS_ENTRY_MODE_CONTACTLESS_MAG                      (0x19)''')],
 'the entry mode of a contactless magnetic stripe card (91)','it has no meaning, and 19 has its meaning',PR+
'''
int main(int c, char** v) {
	shown(v[1], "9F390107");
	CHECK(strstr(out, "contactless EMV"));
	shown(v[1], "9F390191");
	CHECK(strstr(out, "contactless magnetic stripe"));
	shown(v[1], "9F390119");
	CHECK(!strstr(out, "contactless magnetic stripe"));
	return 0;
}''')
s('s27g-longest-name','P27',[(S,"""	if (aid_len < 5 || aid_len > 16) {
		// Application Identifier (AID) must be 5 to 16 bytes
		return 1;
	}

	r = emv_aid_get_info(aid, aid_len, &info);""","""	if (aid_len < 5 || aid_len >= 16) {
		// Application Identifier (AID) must be 5 to 16 bytes
		return 1;
	}

	r = emv_aid_get_info(aid, aid_len, &info);""")],
 'an application identifier of 16 bytes','it is refused although its scheme is known',PR+
'''
int main(int c, char** v) {
	shown(v[1], "4F0F A0000000041010 0102030405060708");
	CHECK(strstr(out, "(Mastercard Credit/Debit)"));
	shown(v[1], "4F10 A0000000041010 010203040506070809");
	CHECK(strstr(out, "(Mastercard Credit/Debit)"));
	return 0;
}''')
