from mkseed import seed
def tlv(t,v): 
    n=len(v)//2
    return t+('%02X'%n if n<128 else '81%02X'%n)+v
AIDA='A0000000031010'
def fci(a, extra=''): return tlv('6F', tlv('84',a)+tlv('A5', tlv('50','56495341')+extra))
def select(a, nxt=False): return '00A40400'.replace('0400','0402' if nxt else '0400')+'%02X'%(len(a)//2)+a+'00'
NOPSE='{ PSE_SELECT, "6A82" },'

# --- P02: correction of wrong length in character mode loses the announced length 0 (256)
seed('s01-getresponse-256','P02',[('src/emv_ttl.c','''				Le = SW2;
			} else {''','''				Le = SW2 ? SW2 : 0xFF;
			} else {''')],
 'a card that announces 256 available bytes (6100) in character mode','the response is fetched one byte short and reported as complete',
 '''
int main(void) {
	static char big[1200]; strcpy(big, "C0"); for (int i = 0; i < 256; ++i) { sprintf(big + strlen(big), "%02X", i); } strcat(big, "9000");
	static char shortr[1200]; strcpy(shortr, "C0"); for (int i = 0; i < 255; ++i) { sprintf(shortr + strlen(shortr), "%02X", i); } strcat(shortr, "9000");
	struct step s[] = { { "00A4040007", "A4" }, { "A0000000031010", "6100" }, { "00C0000000", big }, { 0, 0 } };
	uint8_t r[300]; size_t n = 258; uint16_t sw; uint8_t c[20]; size_t cl = unhex("00A4040007A000000003101000", c);
	start(s, EMV_CARDREADER_MODE_TPDU);
	CHECK(emv_ttl_trx(&ttl, c, cl, r, &n, &sw) == 0);
	CHECK(n == 258 && sw == 0x9000 && r[255] == 0xFF && finished());
	return 0;
}''')

# --- P01: status after warning
seed('s02-warning-then-data-status','P01',[('src/emv_ttl.c','''				if (!*sw1sw2) {
					// Output status bytes''','''				if (!*sw1sw2 || (get_response && rx_len > 2 && SW1 != 0x90)) {
					// Output status bytes''')],
 'a case 4 command whose warning precedes the data and whose final answer again carries a different warning','the status reported is the second one instead of the warning that preceded the data',
 '''
int main(void) {
	struct step s[] = { { "00A4040007A000000003101000", "6283" }, { "00C0000000", "6F0362008401 6282" }, { 0, 0 } };
	uint8_t r[300]; size_t n = 258; uint16_t sw; uint8_t c[20]; size_t cl = unhex("00A4040007A000000003101000", c);
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ttl_trx(&ttl, c, cl, r, &n, &sw) == 0);
	CHECK(sw == 0x6283 && finished());
	return 0;
}''')

# --- P04: same AID selected for ever
seed('s03-same-aid-forever','P04',[('src/emv_tal.c','''			// Unexpected error; ignore app and continue to next supported AID
			// See EMV 4.4 Book 1, 12.3.3, step 3
			aid = aid->next;
			exact_match = true;
			continue;''','''			// Unexpected error; ignore app and continue to next supported AID
			// See EMV 4.4 Book 1, 12.3.3, step 3
			if (exact_match) {
				aid = aid->next;
			}
			exact_match = true;
			continue;''')],
 'a card found by partial name whose further occurrence has an unusable file control information','the same name is selected again and again without end',
 '''
static int rd(void* x, const void* tx, size_t n, void* rx, size_t* rl) { const uint8_t* t = tx; uint8_t b[64]; (void)x; (void)n; static int k;
	if (++k > 3000) { printf("endless\\n"); exit(1); }
	if (t[4] == 0x0E) { memcpy(rx, "\\x6A\\x82", 2); *rl = 2; return 0; }
	const char* h = t[3] == 2 ? "6F009000" : "%s9000"; size_t l = unhex(h, b); memcpy(rx, b, l); *rl = l; return 0; }
int main(void) {
	struct emv_ctx_t c = { 0 }; struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct step s[] = { { 0, 0 } }; start(s, EMV_CARDREADER_MODE_APDU); ttl.cardreader.trx = rd;
	CHECK(emv_ctx_init(&c, &ttl) == 0); aid(&c, "A000000003", EMV_ASI_PARTIAL_MATCH);
	CHECK(emv_build_candidate_list(&c, &l) == 0);
	emv_app_list_clear(&l); emv_ctx_clear(&c); return 0;
}''' % fci(AIDA))

# --- P05
seed('s04-blocked-partial-next','P05',[('src/emv_tal.c','''				// See EMV 4.4 Book 1, 12.3.3, step 7
				exact_match = false;
				continue;''','''				// See EMV 4.4 Book 1, 12.3.3, step 7
				exact_match = (sw1sw2 != 0x9000);
				if (exact_match) {
					aid = aid->next;
				}
				continue;''')],
 'a card without directory, a partial name, and a blocked application before a valid one','applications after a blocked occurrence of a partial name are never found',
 '''
int main(void) {
	struct emv_ctx_t c = { 0 }; struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct step s[] = { { PSE_SELECT, "6A82" }, { "%s", "%s6283" }, { "%s", "%s9000" }, { "%s", "6A82" }, { 0, 0 } };
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ctx_init(&c, &ttl) == 0); aid(&c, "A000000003", EMV_ASI_PARTIAL_MATCH);
	CHECK(emv_build_candidate_list(&c, &l) == 0);
	CHECK(finished() && l.front && !l.front->next);
	emv_app_list_clear(&l); emv_ctx_clear(&c); return 0;
}''' % (select('A000000003'), fci('A0000000031010'), select('A000000003',True), fci('A0000000032010'), select('A000000003',True)))

# --- P06
seed('s05-confirmation-needs-priority','P06',[('src/emv_app.c','app->confirmation_required = tlv->value[0] & EMV_APP_PRIORITY_INDICATOR_CONF_REQUIRED;','app->confirmation_required = app->priority && (tlv->value[0] & EMV_APP_PRIORITY_INDICATOR_CONF_REQUIRED);')],
 'a single application without priority that demands cardholder confirmation','the cardholder is not asked although the only candidate demands confirmation',
 '''
int main(void) {
	struct emv_ctx_t c = { 0 }; struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct step s[] = { { PSE_SELECT, "%s9000" }, { "00B2010C00", "%s9000" }, { "00B2020C00", "6A83" }, { 0, 0 } };
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ctx_init(&c, &ttl) == 0); aid(&c, "A000000003", EMV_ASI_PARTIAL_MATCH);
	CHECK(emv_build_candidate_list(&c, &l) == 0);
	CHECK(finished() && l.front && emv_app_list_selection_is_required(&l));
	emv_app_list_clear(&l); emv_ctx_clear(&c); return 0;
}''' % (tlv('6F',tlv('84','315041592E5359532E4444463031')+tlv('A5','880101')), tlv('70', tlv('61',tlv('4F','A0000000031010')+tlv('50','41')+'870180'))))

# --- P07
seed('s06-df-name-prefix','P07',[('src/emv_tal.c','''	if (app->aid->length != aid_len ||
		memcmp(app->aid->value, aid, aid_len)
	) {''','''	if (app->aid->length < aid_len ||
		memcmp(app->aid->value, aid, aid_len)
	) {''')],
 'a card that answers the selection with a longer name beginning with the chosen one','another application than the chosen one becomes selected',
 '''
int main(void) {
	struct emv_ctx_t c = { 0 }; struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct step s[] = { { PSE_SELECT, "%s9000" }, { "00B2010C00", "%s9000" }, { "00B2020C00", "6A83" }, { "%s", "%s9000" }, { 0, 0 } };
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ctx_init(&c, &ttl) == 0); aid(&c, "A000000003", EMV_ASI_PARTIAL_MATCH);
	CHECK(emv_build_candidate_list(&c, &l) == 0);
	CHECK(emv_select_application(&c, &l, 0) == EMV_OUTCOME_NOT_ACCEPTED && !c.selected_app);
	emv_app_list_clear(&l); emv_ctx_clear(&c); return 0;
}''' % (tlv('6F',tlv('84','315041592E5359532E4444463031')+tlv('A5','880101')), tlv('70', tlv('61',tlv('4F','A0000000031010')+tlv('50','41'))), select('A0000000031010'), fci('A000000003101001')))

# --- P08
seed('s07-pdol-length-128','P08',[('src/emv.c','if (dol_data_len < 0x80) {','if (dol_data_len <= 0x80) {')],
 'a processing options request list of exactly 128 bytes','the command template has an invalid length encoding',
 '''
int main(void) {
	struct emv_ctx_t c = { 0 }; struct emv_app_list_t l = EMV_APP_LIST_INIT; static char cmd[800] = "80A80000838381" "80"; for (int i = 0; i < 128; ++i) strcat(cmd, "00"); strcat(cmd, "00");
	struct step s[] = { { PSE_SELECT, "6A82" }, { "%s", "%s9000" }, { "%s", "%s9000" }, { cmd, "8006 0000 08010100 9000" }, { 0, 0 } };
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ctx_init(&c, &ttl) == 0); aid(&c, "A0000000031010", EMV_ASI_EXACT_MATCH);
	CHECK(emv_build_candidate_list(&c, &l) == 0);
	CHECK(emv_select_application(&c, &l, 0) == 0);
	CHECK(emv_initiate_application_processing(&c, 5) == 0 && finished());
	emv_app_list_clear(&l); emv_ctx_clear(&c); return 0;
}''' % (select(AIDA), fci(AIDA), select(AIDA), fci(AIDA, tlv('9F38','9F1C409F4E40'))))

# --- P10
seed('s08-oda-invalid-forgets-rest','P10',[('src/emv_tal.c','''			emv_debug_error("Offline data authentication not possible due to invalid record");
			oda_record_invalid = true;
			continue;''','''			emv_debug_error("Offline data authentication not possible due to invalid record");
			oda_record_invalid = true;
			break;''')],
 'a file outside the payment files whose first record is not a template, followed by one that is','records after the unusable one are not read although reading reports success',
 '''
int main(void) {
	struct emv_ctx_t c = { 0 };
	struct step s[] = { { "00B2010C00", "%s9000" }, { "00B2017C00", "53019000" "9000" }, { "00B2027C00", "7003 5F250101 9000" }, { 0, 0 } };
	s[2].rx = "70045F2501019000";
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ctx_init(&c, &ttl) == 0); push(&c.icc, 0x94, "0801010078010200");
	CHECK(emv_read_application_data(&c) == 0);
	CHECK(finished() && emv_tlv_list_find(&c.icc, 0x5F25));
	emv_ctx_clear(&c); return 0;
}''' % tlv('70', tlv('5F24','251231')+tlv('5A','4111111111111111')+tlv('8C','9F0206')+tlv('8D','9F0206')))

# --- P11
seed('s09-reset-keeps-terminal-data','P11',[('src/emv.c','''	emv_tlv_list_clear(&ctx->terminal);
	emv_app_free(ctx->selected_app);''','''	if (ctx->selected_app) {
		emv_tlv_list_clear(&ctx->terminal);
	}
	emv_app_free(ctx->selected_app);''')],
 'a transaction that fails in a later selection (nothing selected) after having been initiated, then a reset','terminal data of the previous transaction survives the reset',
 '''
int main(void) {
	struct emv_ctx_t c = { 0 }; struct emv_app_list_t l = EMV_APP_LIST_INIT;
	struct step s[] = { { PSE_SELECT, "6A82" }, { "%s", "%s9000" }, { "%s", "%s9000" }, { "80A8000002830000", "8006000008010100 9000" }, { 0, 0 } };
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ctx_init(&c, &ttl) == 0); aid(&c, "A0000000031010", EMV_ASI_EXACT_MATCH);
	CHECK(emv_build_candidate_list(&c, &l) == 0);
	CHECK(emv_select_application(&c, &l, 0) == 0);
	CHECK(emv_initiate_application_processing(&c, 5) == 0);
	CHECK(emv_select_application(&c, &l, 0) != 0 && !c.selected_app);
	CHECK(emv_ctx_reset(&c) == 0);
	CHECK(emv_tlv_list_is_empty(&c.terminal));
	emv_app_list_clear(&l); emv_ctx_clear(&c); return 0;
}''' % (select(AIDA), fci(AIDA), select(AIDA), fci(AIDA)))

# --- P12
seed('s10-append-forgets-failed-record','P12',[('src/emv_tlv.c','''			// Recurse into constructed/template field but omit it from the list
			r = emv_tlv_parse(tlv.value, tlv.length, list);
			if (r) {
				return r;
			}''','''			// Recurse into constructed/template field but omit it from the list
			r = emv_tlv_parse(tlv.value, tlv.length, list);
			if (r > 0) {
				return r;
			}''')],
 'an allocation failure while a nested template is taken over','data is silently left out and the operation still reports success',
 '''
#include <dlfcn.h>
static int fail_in = -1;
void* __real_malloc(size_t n); void* __wrap_malloc(size_t n) { if (fail_in > 0 && --fail_in == 0) return NULL; return __real_malloc(n); }
int main(void) {
	uint8_t b[32]; size_t n = unhex("70095A0141A5045001429A0143", b); n = unhex("70065A0141500142" "9A0143", b);
	int full; { struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; CHECK(emv_tlv_parse(b, n, &l) == 0); full = 0; for (struct emv_tlv_t* t = l.front; t; t = t->next) ++full; emv_tlv_list_clear(&l); }
	for (int k = 1; k <= 6; ++k) { struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; fail_in = k; int r = emv_tlv_parse(b, n, &l); fail_in = -1; int c = 0; for (struct emv_tlv_t* t = l.front; t; t = t->next) ++c; CHECK(r != 0 || c == full); emv_tlv_list_clear(&l); }
	return 0;
}''', )
import re
p='/verif/seeded/s10-append-forgets-failed-record/demo.sh'
open(p,'w').write('''#!/bin/bash
. "$(dirname "$0")/demo_common.sh"
build_lib
gcc -std=gnu11 $FL -Wl,--wrap=malloc -I"$D" "$D/demo.c" $W/libx.a -lboost_locale -lstdc++ -o $W/demo || exit 99
timeout 60 $W/demo || exit 1
exit 0
''')

# --- P13
seed('s11-debug-time-truncated','P13',[('src/emv_debug.c','(uint32_t)(((t.tv_sec * 1000000) + (t.tv_nsec / 1000)))','((uint32_t)t.tv_sec % 4294) * 1000000 + (uint32_t)(t.tv_nsec / 1000)')],
 'a clock value whose seconds exceed the range of the shortened computation','the time delivered with debug events is not that of the clock',
 '''
#include <time.h>
static uint32_t got; static void f(unsigned int ts, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t t, const char* str, const void* b, size_t n) { got = ts; (void)s; (void)l; (void)t; (void)str; (void)b; (void)n; }
int main(void) {
	struct timespec a, b; emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, f);
	timespec_get(&a, TIME_UTC); emv_debug_internal(EMV_DEBUG_SOURCE_EMV, EMV_DEBUG_INFO, EMV_DEBUG_TYPE_MSG, "x", NULL, 0); timespec_get(&b, TIME_UTC);
	uint32_t lo = (uint32_t)(a.tv_sec * 1000000ull + a.tv_nsec / 1000), hi = (uint32_t)(b.tv_sec * 1000000ull + b.tv_nsec / 1000);
	CHECK(got - lo <= hi - lo);
	return 0;
}''')

# --- P03
seed('s12-wait-byte-as-data','P03',[('src/emv_ttl.c','''			// Verify leading INS byte in R-TPDU
			if (memcmp(rx_buf, &INS, 1) != 0) {''','''			// Verify leading INS byte in R-TPDU
			if (memcmp(rx_buf, &INS, 1) != 0 && rx_buf[0] != 0x60) {''')],
 'a corrupted leading procedure byte of value 60 before response data in character mode','an answer that violates the exchange protocol is accepted as data',
 '''
int main(void) {
	struct step s[] = { { "00B2010C00", "60 7003 5A0141 9000" }, { 0, 0 } };
	uint8_t r[300]; size_t n = 258; uint16_t sw; uint8_t c[20]; size_t cl = unhex("00B2010C00", c);
	start(s, EMV_CARDREADER_MODE_TPDU);
	CHECK(emv_ttl_trx(&ttl, c, cl, r, &n, &sw) != 0);
	return 0;
}''')

# --- P09
seed('s13-gpo-conditions-warning','P09',[('src/emv_tal.c','''		if (gpo_tlv.length < 6 || // AIP and at least one AFL entry
			((gpo_tlv.length - 2) & 0x3) != 0 // AFL is multiple of 4 bytes''','''		if (gpo_tlv.length < 6 || // AIP and at least one AFL entry
			((gpo_tlv.length - 2) & 0x1) != 0 // AFL is multiple of 4 bytes''')],
 'a format 1 answer whose file locator ends in the middle of an entry','a truncated processing options answer is accepted',
 '''
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	struct step s[] = { { "80A8000002830000", "80080000080101000801" "9000" }, { 0, 0 } };
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_tal_get_processing_options(&ttl, NULL, 0, &l, NULL, NULL) != 0);
	emv_tlv_list_clear(&l);
	return 0;
}''')
