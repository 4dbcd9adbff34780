from mkseed import seed, T
import sys
STUB=('pcsc_stub.h',open(T+'/pcsc_stub.h').read()); RUN=('tool_run.h',open(T+'/tool_run.h').read())
def sh(body): return '#!/bin/bash\n. "$(dirname "$0")/demo_common.sh"\n'+body
END='rc=$?\necho "demo exit $rc"\n[ $rc -eq 0 ] || exit 1\nexit 0\n'
TOOL=sh('build_tool tools/emv-tool.c\ntimeout 100 $W/demo\n'+END)
PC=sh('run_demo\n')
def s(i,prop,edits,needs,breaks,demo,shell=PC,extra=()):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,sh=shell,extra=(('demo.c',demo),('demo.h',open(T+'/demo.h').read()),STUB,RUN)+tuple(extra))

s('s14-missing-tck','P14',[('src/iso7816.c','''		if (atr_idx >= atr_info->atr_len) {
			// T=1 is available but TCK is missing''','''		if (atr_idx > atr_info->atr_len) {
			// T=1 is available but TCK is missing''')],
 'an answer-to-reset with mandatory check byte, cut off just before it, whose other bytes happen to cancel out','the truncated answer is accepted with an invented check byte',
'''
#include "demo.h"
#include "emv.h"
int main(void) {
	// E0 00 00 81 31 20 45 35 is complete; choose TA3 so that the check byte is 00
	uint8_t a[] = { 0x3B, 0xE0, 0x00, 0x00, 0x81, 0x31, 0x20, 0x45, 0x00 };
	uint8_t x = 0;
	for (unsigned i = 1; i < 8; ++i) { x ^= a[i]; }
	a[6] ^= x; // now the check byte is 00
	CHECK(emv_atr_parse(a, 9) == 0);
	CHECK(emv_atr_parse(a, 8) != 0);
	return 0;
}''')

s('s14b-tck-global-only','P14',[('src/iso7816.c','''			if (protocol != ISO7816_PROTOCOL_T0) {
				tck_mandatory = true;''','''			if (protocol == ISO7816_PROTOCOL_T1) {
				tck_mandatory = true;''')],
 'a T=0 card that also gives global (T=15) interface bytes and whose answer is corrupted or lacks its check byte','the check byte is not verified',
'''
#include "demo.h"
int main(void) {
	uint8_t a[] = { 0x3B, 0xE0, 0x00, 0x00, 0x80, 0x1F, 0x02, 0x00 };
	uint8_t x = 0;
	for (unsigned i = 1; i < 7; ++i) { x ^= a[i]; }
	a[7] = x;
	CHECK(emv_atr_parse(a, 8) == 0);
	a[7] = (uint8_t)(x ^ 0x40);
	CHECK(emv_atr_parse(a, 8) != 0);
	CHECK(emv_atr_parse(a, 7) != 0);
	return 0;
}''')

s('s15-exclusive-card-skipped','P15',[('src/pcsc.c','''			if (pcsc->reader_states[i].dwEventState & SCARD_STATE_PRESENT) {''','''			if ((pcsc->reader_states[i].dwEventState & (SCARD_STATE_PRESENT | SCARD_STATE_EXCLUSIVE)) == SCARD_STATE_PRESENT) {''')],
 'a card that another program holds exclusively while the terminal waits','a present card is not reported and the wait times out',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
int main(void) {
	pcsc_ctx_t c; size_t idx = PCSC_READER_ANY;
	CHECK(pcsc_init(&c) == 0);
	stub_state = SCARD_STATE_PRESENT | SCARD_STATE_EXCLUSIVE | SCARD_STATE_INUSE;
	CHECK(pcsc_wait_for_card(c, 0, &idx) == 0 && idx == 0);
	pcsc_release(&c);
	return 0;
}''')

s('s15b-state-waits-when-empty','P15',[('src/pcsc.c','''	reader_state.dwCurrentState = SCARD_STATE_UNAWARE;

	result = SCardGetStatusChange(
		reader->pcsc->context,
		INFINITE,''','''	reader_state.dwCurrentState = SCARD_STATE_EMPTY;

	result = SCardGetStatusChange(
		reader->pcsc->context,
		INFINITE,''')],
 'asking for the state of a reader that is exactly in the plain empty state','the query does not return until a card is inserted',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
int main(void) {
	pcsc_ctx_t c; unsigned int st = 0;
	CHECK(pcsc_init(&c) == 0);
	stub_state = SCARD_STATE_EMPTY;
	CHECK(pcsc_reader_get_state(pcsc_get_reader(c, 0), &st) == 0 && (st & SCARD_STATE_EMPTY));
	pcsc_release(&c);
	return 0;
}''')

s('s16-status-failure-stays-open','P16',[('src/pcsc.c','''		fprintf(stderr, "SCardStatus() failed; result=0x%x [%s]\\n", (unsigned int)result, pcsc_stringify_error(result));
		pcsc_reader_disconnect(reader);
''','''		fprintf(stderr, "SCardStatus() failed; result=0x%x [%s]\\n", (unsigned int)result, pcsc_stringify_error(result));
''')],
 'the service fails to report the status of a card that has just been connected','the failed connect leaves the card connection open',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
int main(void) {
	pcsc_ctx_t c;
	CHECK(pcsc_init(&c) == 0);
	CHECK(stub_open == 0);
	stub_status_result = SCARD_W_RESET_CARD;
	CHECK(pcsc_reader_connect(pcsc_get_reader(c, 0)) < 0);
	CHECK(stub_open == 0 && stub_bad == 0);
	pcsc_release(&c);
	return 0;
}''')

s('s16b-list-race-leaks-context','P16',[('src/pcsc.c','''	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
	if (result != SCARD_S_SUCCESS) {
		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\\n", (unsigned int)result, pcsc_stringify_error(result));
		pcsc_release(ctx);
''','''	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
	if (result != SCARD_S_SUCCESS) {
		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\\n", (unsigned int)result, pcsc_stringify_error(result));
		free(pcsc->reader_strings);
		free(pcsc);
		*ctx = NULL;
''')],
 'the last reader is unplugged between the two listing calls of initialisation','the service context stays established',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
int main(void) {
	pcsc_ctx_t c;
	stub_list_fail_at = 2;
	CHECK(pcsc_init(&c) != 0);
	CHECK(stub_contexts == 0);
	return 0;
}''')

s('s17-short-pin-properties','P17',[('src/pcsc.c','''		if (reader->features.pin_properties_len != sizeof(reader->features.pin_properties)) {''','''		if (reader->features.pin_properties_len > sizeof(reader->features.pin_properties)) {''')],
 'a reader that declares PIN properties and truncates the answer','a property is reported from an answer that does not contain it',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
static LONG control(DWORD code, unsigned char* rb, DWORD rl, DWORD* ret) {
	static const unsigned char f[] = { 0x0A, 4, 0x42, 0x33, 0x00, 0x0A };
	if (code == CM_IOCTL_GET_FEATURE_REQUEST) { memcpy(rb, f, sizeof(f)); *ret = sizeof(f); return 0; }
	if (code == 0x4233000A) { rb[0] = 0x10; *ret = 1; return 0; }
	return SCARD_E_UNSUPPORTED_FEATURE;
}
int main(void) {
	pcsc_ctx_t c; uint8_t v[8]; size_t n = sizeof(v);
	stub_control = control;
	CHECK(pcsc_init(&c) == 0);
	CHECK(pcsc_reader_get_property(pcsc_get_reader(c, 0), PCSC_PROPERTY_wLcdLayout, v, &n) != 0);
	pcsc_release(&c);
	return 0;
}''')

s('s17b-property-overruns-caller','P17',[('src/pcsc.c','''			if (tlv[1] > *value_len) {
				*value_len = 0;
				return -3;
			}
''','''			if (tlv[1] > *value_len && tlv_len - 2 > *value_len + tlv[1]) {
				*value_len = 0;
				return -3;
			}
''')],
 'a reader whose last property is longer than the room the caller provides','memory after the caller\'s buffer is overwritten',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
static LONG control(DWORD code, unsigned char* rb, DWORD rl, DWORD* ret) {
	static const unsigned char f[] = { 0x12, 4, 0x42, 0x33, 0x00, 0x12 };
	static const unsigned char p[] = { 0x01, 4, 1, 2, 3, 4 };
	if (code == CM_IOCTL_GET_FEATURE_REQUEST) { memcpy(rb, f, sizeof(f)); *ret = sizeof(f); return 0; }
	if (code == 0x42330012) { memcpy(rb, p, sizeof(p)); *ret = sizeof(p); return 0; }
	return SCARD_E_UNSUPPORTED_FEATURE;
}
int main(void) {
	pcsc_ctx_t c; size_t n = 2; uint8_t* v = malloc(2);
	stub_control = control;
	CHECK(pcsc_init(&c) == 0);
	CHECK(pcsc_reader_get_property(pcsc_get_reader(c, 0), 1, v, &n) != 0);
	free(v);
	pcsc_release(&c);
	return 0;
}''')

CARD='''
#include "pcsc_stub.h"
#include "tool_run.h"
static size_t hx(const char* h, uint8_t* o) { size_t n = 0; for (; h[0]; h += 2) { unsigned v; sscanf(h, "%2x", &v); o[n++] = (uint8_t)v; } return n; }
static unsigned gpo_refused;
static const char* gpo_answer = "6985";
static const char* pdol = "";
static FILE* gpo_log;
static size_t card(const uint8_t* c, size_t n, uint8_t* r) {
	char b[600];
	if (c[1] == 0xA4 && c[4] == 14) { return hx("6A82", r); }
	if (c[1] == 0xA4 && c[4] == 7 && c[9] == 0x03 && !memcmp(c + 5, "\\xA0\\x00\\x00\\x00\\x03\\x10\\x10", 7)) {
		sprintf(b, "6F%02X8407A0000000031010A5%02X500456495341%s9000", (unsigned)(17 + strlen(pdol) / 2), (unsigned)(6 + strlen(pdol) / 2), pdol);
		return hx(b, r);
	}
	if (c[1] == 0xA4 && c[4] == 6 && c[9] == 0x03 && c[3] == 0) {
		sprintf(b, "6F%02X8407A0000000031010A5%02X500456495341%s9000", (unsigned)(17 + strlen(pdol) / 2), (unsigned)(6 + strlen(pdol) / 2), pdol);
		return hx(b, r);
	}
	if (c[1] == 0xA4) { return hx("6A82", r); }
	if (c[1] == 0xA8) {
		if (gpo_log) { for (size_t i = 0; i < n; ++i) { fprintf(gpo_log, "%02X", c[i]); } fflush(gpo_log); }
		return hx(gpo_answer, r);
	}
	return hx("6D00", r);
}
'''
s('s18-gpo-declined-empty-list','P18',[('tools/emv-tool.c','''			if (r == EMV_OUTCOME_GPO_NOT_ACCEPTED && !emv_app_list_is_empty(&app_list)) {''','''			if (r == EMV_OUTCOME_GPO_NOT_ACCEPTED) {''')],
 'the only candidate declines processing because its conditions of use are not satisfied','the terminal goes on selecting although no candidate remains and reports an error the transaction did not have',
CARD+'''
int main(void) {
	char* av[] = { "emv-tool", "--txn-type", "00", "--txn-amount", "100", NULL };
	stub_card = card;
	int st = tool_run(av, "");
	CHECK(st < 1000);
	CHECK(strstr(tool_out, "Initiate application processing"));
	char* o = strstr(tool_out, "OUTCOME");
	CHECK(o && !strstr(o, "ERROR") && !strstr(o, "Select"));
	return 0;
}''',TOOL)

s('s18b-menu-zero','P18',[('tools/emv-tool.c','''			if (!input || input > app_count) {''','''			if (input > app_count) {''')],
 'a cardholder who enters 0 at the application menu','the terminal attempts to select an application that does not exist and ends',
CARD.replace('''c[1] == 0xA4 && c[4] == 6 && c[9] == 0x03 && c[3] == 0) {''','''c[1] == 0xA4 && c[4] == 6 && c[9] == 0x04 && c[10] == 0x10 && c[3] == 0) { return hx("6F128407A0000000041010A50750054D4153544552".length ? "" : "", r); }
	if (c[1] == 0xA4 && c[4] == 6 && c[9] == 0x03 && c[3] == 0) {''').replace('''return hx("6F128407A0000000041010A50750054D4153544552".length ? "" : "", r);''','''return hx("6F118407A0000000041010A50650044D4153549000", r);''')+'''
int main(void) {
	char* av[] = { "emv-tool", "--txn-type", "00", "--txn-amount", "100", NULL };
	stub_card = card;
	int st = tool_run(av, "0\\n1\\n");
	CHECK(st < 1000);
	CHECK(strstr(tool_out, "2 - "));
	CHECK(strstr(tool_out, "Invalid input"));
	CHECK(strstr(tool_out, "Initiate application processing"));
	return 0;
}''',TOOL)

s('s19-other-amount-truncated','P19',[('tools/emv-tool.c','''			if (value > 0xFFFFFFFF) {
				argp_error(state, "Secondary''','''			if (value > 0xFFFFFFFFFF) {
				argp_error(state, "Secondary''')],
 'a secondary amount slightly above 32 bits','the transaction is performed with a different secondary amount instead of being refused',
CARD+'''
int main(void) {
	char* av[] = { "emv-tool", "--txn-amount", "100", "--txn-amount-other", "4294967297", NULL };
	char* ok[] = { "emv-tool", "--txn-amount", "100", "--txn-amount-other", "4294967295", NULL };
	stub_card = card;
	CHECK(tool_run(ok, "") < 1000 && strstr(tool_out, "Card activated"));
	tool_run(av, "");
	CHECK(!strstr(tool_out, "Card activated"));
	return 0;
}''',TOOL)

s('s19b-october','P19',[('tools/emv-tool.c','''	emv_date[1] = (((tm->tm_mon + 1) / 10) << 4) | ((tm->tm_mon + 1) % 10);''','''	emv_date[1] = ((tm->tm_mon / 10) << 4) | ((tm->tm_mon + 1) % 10);''')],
 'a transaction in October','the card receives month 00',
CARD+'''
#include <time.h>
time_t time(time_t* t) { time_t v = 1729080000; if (t) { *t = v; } return v; } // 16 October 2024
int main(void) {
	char* av[] = { "emv-tool", "--txn-type", "00", "--txn-amount", "100", NULL };
	char b[200] = { 0 };
	setenv("TZ", "UTC", 1);
	stub_card = card;
	pdol = "9F38029A03";
	gpo_log = tmpfile();
	CHECK(tool_run(av, "") < 1000);
	rewind(gpo_log);
	CHECK(fgets(b, sizeof(b), gpo_log));
	CHECK(strstr(b, "8303241016"));
	return 0;
}''',TOOL)

DECODE=sh('''TOOL_DEFS="-include $D/cookie.h"
build_tool tools/emv-decode.c
timeout 100 $W/demo
'''+END)
s('s20-read-error-is-end','P20',[('tools/emv-decode.c','''		if (ferror(file)) {
''','''		if (ferror(file) && total_len == 0) {
'''),('tools/emv-decode.c','''	} while (!feof(file));''','''	} while (!feof(file) && !ferror(file));''')],
 'standard input that fails after some data has arrived','the data received before the failure is decoded as if it were complete',
'''
#define _GNU_SOURCE
#include "pcsc_stub.h"
#include "tool_run.h"
#include <errno.h>
#undef stdin
FILE* demo_stdin;
static int calls;
static ssize_t rd(void* c, char* b, size_t n) { if (calls++) { errno = EIO; return -1; } memcpy(b, "\\x50\\x02\\x41\\x42", 4); return 4; }
int main(void) {
	char* av[] = { "emv-decode", "--tlv", "-", NULL };
	cookie_io_functions_t f = { rd, NULL, NULL, NULL };
	demo_stdin = fopencookie(NULL, "r", f);
	setvbuf(demo_stdin, NULL, _IONBF, 0);
	int st = tool_run(av, "");
	CHECK(st != 0 && st < 1000);
	CHECK(!strstr(tool_out, "4142") && !strstr(tool_out, "41 42"));
	return 0;
}''',DECODE,(('cookie.h','#include <stdio.h>\n#undef stdin\nextern FILE* demo_stdin;\n#define stdin demo_stdin\n'),))

s('s20b-string-terminator','P20',[('tools/print_helpers.c','''				if (tlv.length < sizeof(str)) {''','''				if (tlv.length <= sizeof(str)) {''')],
 'a BER string whose length is exactly that of the print buffer (1024)','memory after the buffer is overwritten',
'''
#include "pcsc_stub.h"
#include "tool_run.h"
int main(void) {
	static char h[2100] = "0C820400";
	for (int i = 0; i < 1024; ++i) { strcat(h, "41"); }
	char* av[] = { "emv-decode", "--ber", h, NULL };
	CHECK(tool_run(av, "") == 0);
	CHECK(strstr(tool_out, "[1024]"));
	return 0;
}''',sh('build_tool tools/emv-decode.c\ntimeout 100 $W/demo\n'+END))

s('s21-bad-entry-skipped','P21',[('src/isocodes_lookup.cpp','''		if (!result) {
			return JSON_C_VISIT_RETURN_ERROR;
		}
''','''		if (!result) {
			return JSON_C_VISIT_RETURN_SKIP;
		}
''')],
 'a table in which one entry lacks a required member','loading succeeds with a table that lacks the entry',
'''
#include "isocodes_lookup.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
static void put(const std::string& d, const char* f, const char* c) { FILE* o = fopen((d + "/" + f).c_str(), "w"); fputs(c, o); fclose(o); }
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
int main(int, char** av) {
	std::string d = av[1];
	put(d, "iso_3166-1.json", "{\\"3166-1\\":[{\\"alpha_2\\":\\"NL\\",\\"alpha_3\\":\\"NLD\\",\\"name\\":\\"Netherlands\\",\\"numeric\\":\\"528\\"}]}");
	put(d, "iso_639-2.json", "{\\"639-2\\":[{\\"alpha_2\\":\\"en\\",\\"alpha_3\\":\\"eng\\",\\"name\\":\\"English\\"}]}");
	put(d, "iso_4217.json", "{\\"4217\\":[{\\"alpha_3\\":\\"EUR\\",\\"name\\":\\"Euro\\",\\"numeric\\":\\"978\\"},{\\"alpha_3\\":\\"USD\\",\\"name\\":\\"US Dollar\\"}]}");
	CHECK(isocodes_init(d.c_str()) != 0);
	put(d, "iso_4217.json", "{\\"4217\\":[{\\"alpha_3\\":\\"EUR\\",\\"name\\":\\"Euro\\",\\"numeric\\":\\"978\\"}]}");
	CHECK(isocodes_init(d.c_str()) == 0);
	return 0;
}''',sh('''cp "$D/demo.c" $W/demo.cpp
g++ -std=c++11 $FL $W/demo.cpp src/isocodes_lookup.cpp -ljson-c -o $W/demo || exit 99
mkdir $W/t
timeout 60 $W/demo $W/t
'''+END))

s('s21b-mcc-unreadable','P21',[('src/mcc_lookup.cpp','''	// Extract edited_description string
	json_object* desc_obj = json_object_object_get(jso, "edited_description");
	if (!desc_obj) {
		return false;
	}
''','''	// Extract edited_description string
	json_object* desc_obj = json_object_object_get(jso, "edited_description");
	if (!desc_obj) {
		desc_obj = json_object_object_get(jso, "combined_description");
	}
	if (!desc_obj) {
		return false;
	}
''')],
 'a merchant category table in which an entry lacks its description but has another one','loading succeeds and the lookup returns something else than the entry',
'''
#include "mcc_lookup.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
int main(int, char** av) {
	std::string d = std::string(av[1]) + "/m.json";
	FILE* o = fopen(d.c_str(), "w"); fputs("[{\\"mcc\\":\\"5999\\",\\"combined_description\\":\\"Other\\",\\"id\\":1}]", o); fclose(o);
	CHECK(mcc_init(d.c_str()) != 0);
	return 0;
}''',sh('''cp "$D/demo.c" $W/demo.cpp
g++ -std=c++11 $FL $W/demo.cpp src/mcc_lookup.cpp -ljson-c -o $W/demo || exit 99
mkdir $W/t
timeout 60 $W/demo $W/t
'''+END))
