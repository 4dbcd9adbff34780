from mkseed import seed, T
import sys
STUB=('pcsc_stub.h',open(T+'/pcsc_stub.h').read()); RUN=('tool_run.h',open(T+'/tool_run.h').read())
def sh(body): return '#!/bin/bash\n. "$(dirname "$0")/demo_common.sh"\n'+body
END='rc=$?\necho "demo exit $rc"\n[ $rc -eq 0 ] || exit 1\nexit 0\n'
TOOL=sh('build_tool tools/emv-tool.c\ntimeout 100 $W/demo\n'+END)
PC=sh('run_demo\n')
def s(i,prop,edits,needs,breaks,demo,shell=PC,extra=()):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,sh=shell,extra=(('demo.c',demo),('demo.h',open(T+'/demo.h').read()),STUB,RUN)+tuple(extra))

TWO='''
#include "demo.h"
// two cards; while the first transaction waits for its card, the second one makes progress
struct card { const char* aid; const char* fci; };
static struct emv_ttl_t ttl_a, ttl_b;
static void (*meanwhile)(void);
static const char* answer_b;
static const char* answer_a;
static int reader_b(void* ctx, const void* tx, size_t n, void* rx, size_t* rx_len) { (void)ctx; (void)tx; (void)n; *rx_len = unhex(answer_b, rx); return 0; }
static int reader_a(void* ctx, const void* tx, size_t n, void* rx, size_t* rx_len)
{
	(void)ctx; (void)tx; (void)n;
	*rx_len = unhex(answer_a, rx);
	if (meanwhile) { void (*f)(void) = meanwhile; meanwhile = NULL; f(); }
	return 0;
}
static void setup(void)
{
	memset(&ttl_a, 0, sizeof(ttl_a)); ttl_a.cardreader.mode = EMV_CARDREADER_MODE_APDU; ttl_a.cardreader.trx = reader_a;
	memset(&ttl_b, 0, sizeof(ttl_b)); ttl_b.cardreader.mode = EMV_CARDREADER_MODE_APDU; ttl_b.cardreader.trx = reader_b;
}
'''
s('s22-static-exchange-buffer','P22',[('src/emv_ttl.c','''		uint8_t rx_buf[1 + EMV_RAPDU_MAX]; // TPDU mode has leading INS byte''','''		static uint8_t rx_buf[1 + EMV_RAPDU_MAX]; // TPDU mode has leading INS byte; too large for small stacks''')],
 'two transactions in progress in one process, one of which exchanges a command while the other is inside its reader','a transaction obtains the answer that the other card gave',
TWO+'''
static void other(void)
{
	uint8_t d[300]; size_t n = sizeof(d); uint16_t sw = 0;
	CHECK(emv_ttl_read_record(&ttl_b, 1, 1, d, &n, &sw) == 0 && sw == 0x9000 && n == 4 && d[3] == 0xBB);
}
int main(void) {
	uint8_t d[300]; size_t n = sizeof(d); uint16_t sw = 0;
	setup();
	answer_a = "70035A01AA 9000"; answer_b = "700257BB 9000";
	CHECK(emv_ttl_read_record(&ttl_a, 1, 1, d, &n, &sw) == 0 && sw == 0x9000 && n == 5 && d[4] == 0xAA);
	n = sizeof(d); meanwhile = other;
	CHECK(emv_ttl_read_record(&ttl_a, 1, 1, d, &n, &sw) == 0);
	CHECK(sw == 0x9000 && n == 5 && d[4] == 0xAA);
	return 0;
}''')
s('s22b-static-current-aid','P22',[('src/emv.c','''	uint8_t current_aid[16];
	size_t current_aid_len;''','''	static uint8_t current_aid[16];
	size_t current_aid_len;''')],
 'two transactions in progress, the second selecting its application while the first waits for the answer to its own selection','the first transaction compares the name its card returned with the application the second selected and gives the application up',
TWO+'''
static struct emv_ctx_t a, b;
static struct emv_app_list_t la = EMV_APP_LIST_INIT, lb = EMV_APP_LIST_INIT;
static void candidate(struct emv_app_list_t* l, const char* aid)
{
	uint8_t e[40], v[20]; size_t n = unhex(aid, v), k = 0;
	struct iso8825_tlv_t unused; (void)unused;
	e[k++] = 0x4F; e[k++] = (uint8_t)n; memcpy(e + k, v, n); k += n;
	e[k++] = 0x50; e[k++] = 1; e[k++] = 'X';
	struct emv_tlv_list_t none = EMV_TLV_LIST_INIT;
	struct emv_app_t* app = emv_app_create_from_pse(&none, e, k);
	CHECK(app);
	CHECK(emv_app_list_push(l, app) == 0);
}
static void other(void) { CHECK(emv_select_application(&b, &lb, 0) == 0); }
int main(void) {
	for (int k = 0; k < 2; ++k) {
		setup();
		CHECK(emv_ctx_init(&a, &ttl_a) == 0 && emv_ctx_init(&b, &ttl_b) == 0);
		candidate(&la, "A0000000031010"); candidate(&lb, "A0000000041010");
		answer_a = "6F0E8407A0000000031010A50350015A 9000"; answer_b = "6F0E8407A0000000041010A50350015A 9000";
		meanwhile = k ? other : NULL;
		CHECK(emv_select_application(&a, &la, 0) == 0);
		CHECK(a.selected_app && a.selected_app->aid->value[4] == 0x03);
		emv_app_list_clear(&la); emv_app_list_clear(&lb);
		emv_ctx_clear(&a); emv_ctx_clear(&b);
	}
	return 0;
}''')
s('s23-remove-last-app','P23',[('src/emv_app.c','''			if (!app->next) {
				// App at back of list
				list->back = prev;
			}
''','')],
 'the last application of a list is removed and another one is added afterwards','the added application is attached to the removed one and is lost from the list',
'''
#include "demo.h"
static struct emv_app_t* make(uint8_t x)
{
	uint8_t e[] = { 0x4F, 0x07, 0xA0, 0, 0, 0, 3, 0x10, x, 0x50, 0x01, 'X' };
	struct emv_tlv_list_t none = EMV_TLV_LIST_INIT;
	struct emv_app_t* a = emv_app_create_from_pse(&none, e, sizeof(e));
	CHECK(a);
	return a;
}
int main(void) {
	struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct emv_app_t* a; struct emv_app_t* last;
	CHECK(emv_app_list_push(&l, make(1)) == 0 && emv_app_list_push(&l, make(2)) == 0);
	a = emv_app_list_remove_index(&l, 1);
	CHECK(a && !a->next);
	last = make(3);
	CHECK(emv_app_list_push(&l, last) == 0);
	CHECK(l.front && l.front->next == last && !last->next && l.back == last);
	emv_app_free(a);
	emv_app_list_clear(&l);
	return 0;
}''')
s('s23b-append-nothing','P23',[('src/emv_tlv.c',"""	if (other->back) {
		// If other not empty, other back becomes list back
		list->back = other->back;
	}
""","""	// Other back becomes list back
	list->back = other->back;
""")],
 'an empty list is appended to a list that has elements','the list loses its end, is no longer valid and refuses everything',
'''
#include "demo.h"
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT, e = EMV_TLV_LIST_INIT;
	CHECK(emv_tlv_list_push(&l, 0x5A, 1, (const uint8_t*)"\\1", 0) == 0);
	CHECK(emv_tlv_list_append(&l, &e) == 0);
	CHECK(emv_tlv_list_push(&l, 0x57, 1, (const uint8_t*)"\\2", 0) == 0);
	CHECK(l.front && l.front->next && l.front->next->tag == 0x57 && l.back == l.front->next);
	emv_tlv_list_clear(&l);
	return 0;
}''')
TOOLARGS='''
#include "pcsc_stub.h"
#include "tool_run.h"
static char* av[] = { "emv-tool", "--txn-type", "00", "--txn-amount", "100", "--debug-level", "NONE", NULL };
'''
s('s24-open-pin-size','P24',[('tools/emv-tool.c','''				if (bMinPINSize || bMaxPINSize) {''','''				if (bMinPINSize && bMaxPINSize) {''')],
 'a reader that declares only a minimum (or only a maximum) PIN size','the declared PIN size is not shown',
TOOLARGS+'''
static LONG control(DWORD code, unsigned char* rb, DWORD rl, DWORD* ret)
{
	static const uint8_t f[] = { 0x12, 4, 0x42, 0x33, 0, 0x12 };
	static const uint8_t p[] = { 0x06, 1, 4, 0x0B, 2, 0x34, 0x12, 0x0C, 2, 0x78, 0x56 };
	(void)rl;
	if (code == 0x42330012) { memcpy(rb, p, sizeof(p)); *ret = sizeof(p); } else { memcpy(rb, f, sizeof(f)); *ret = sizeof(f); }
	return SCARD_S_SUCCESS;
}
int main(void) {
	stub_control = control;
	CHECK(tool_run(av, "") < 1000);
	CHECK(strstr(tool_out, "USB device 1234:5678"));
	CHECK(strstr(tool_out, "PIN size 4+"));
	return 0;
}''',TOOL)
s('s24b-mute-in-use','P24',[('tools/emv-tool.c','''		if (reader_state & PCSC_STATE_MUTE) {''','''		if ((reader_state & ~PCSC_STATE_CHANGED) == (PCSC_STATE_PRESENT | PCSC_STATE_MUTE)) {''')],
 'an unresponsive card while the reader is in use by another program, or after the reader has counted an event','the unresponsive card is shown as an ordinary present card',
TOOLARGS+'''
int main(void) {
	stub_state = SCARD_STATE_PRESENT | SCARD_STATE_MUTE;
	CHECK(tool_run(av, "") < 1000);
	CHECK(strstr(tool_out, "Unresponsive card"));
	stub_state |= SCARD_STATE_INUSE;
	CHECK(tool_run(av, "") < 1000);
	CHECK(strstr(tool_out, "Unresponsive card"));
	return 0;
}''',TOOL)
