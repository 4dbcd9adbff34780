from mkseed import seed, T
import sys
STUB=('pcsc_stub.h',open(T+'/pcsc_stub.h').read())
def s(i,prop,edits,needs,breaks,demo,extra=()):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,demo,extra=extra)
L='src/emv_tal.c';E='src/emv.c';D='src/emv_dol.c';F='src/emv_ttl.c';P='src/pcsc.c';V='src/emv_tlv.c'

CTX='''
static struct emv_ctx_t c;
static void candidate(const char* name, const char* pdol)
{
	uint8_t fci[200], b[200]; size_t n; char h[400];
	snprintf(h, sizeof(h), "6F %02zX 84 07 %s A5 %02zX 50 01 42 %s", 9 + 2 + 3 + strlen(pdol) / 2, name, 3 + strlen(pdol) / 2, pdol);
	n = unhex(h, b); memcpy(fci, b, n);
	c.selected_app = emv_app_create_from_fci(fci, n);
	CHECK(c.selected_app);
}
'''
s('s08b-terminal-before-config','P08',[(E,'''	sources[1] = &ctx->config;
	sources[2] = &ctx->terminal;''','''	sources[1] = &ctx->terminal;
	sources[2] = &ctx->config;''')],
 'a merchant configuration that supplies a value for an element which the terminal also creates itself (such as the point of service entry mode), and a card that asks for it','the card is sent the wrong value: the documented order of the sources is reversed',
CTX+'''
int main(void) {
	struct step t[] = { { "80A8000003830107 00", "80060800080101009000" }, { 0, 0 } };
	start(t, EMV_CARDREADER_MODE_APDU);
	emv_ctx_init(&c, &ttl);
	candidate("A0000000031010", "9F38039F3901");
	push(&c.config, EMV_TAG_9F39_POS_ENTRY_MODE, "07");
	CHECK(emv_initiate_application_processing(&c, 0x05) == 0);
	CHECK(finished());
	emv_ctx_clear(&c);
	return 0;
}''')
s('s08c-padding-unset','P08',[(D,'memset(data_ptr + tlv->length, 0, pad_len);','memset(data_ptr + tlv->length, 0, pad_len - (pad_len > 8));')],
 'a card that asks for an element with at least nine more bytes than the terminal holds for it','the last byte sent is whatever the buffer held before instead of zero',
'''
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; const struct emv_tlv_list_t* src[1] = { &l };
	uint8_t dol[3], d[32]; size_t n;
	push(&l, EMV_TAG_9F1C_TERMINAL_IDENTIFICATION, "4142");
	unhex("9F1C0C", dol);
	memset(d, 0xEE, sizeof(d)); n = sizeof(d);
	CHECK(emv_dol_build_data(dol, 3, src, 1, d, &n) == 0 && n == 12);
	CHECK(d[0] == 0x41 && d[1] == 0x42);
	for (int i = 2; i < 12; ++i) CHECK(d[i] == 0);
	emv_tlv_list_clear(&l);
	return 0;
}''')
s('s09b-aip-from-selection','P09',[(L,'''	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
	if (!tlv) {''','''	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
	if (!tlv) {
		tlv = emv_tlv_list_find_const(list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
	}
	if (!tlv) {''')],
 'a format 2 answer without interchange profile, and a list that already holds an element of that tag from elsewhere','an answer that lacks a mandatory element is accepted',
'''
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	struct step t[] = { { "80A8000002830000", "7706 9404 08010100 9000" }, { 0, 0 } };
	start(t, EMV_CARDREADER_MODE_APDU);
	push(&l, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE, "1800");
	CHECK(emv_tal_get_processing_options(&ttl, NULL, 0, &l, NULL, NULL) != 0);
	emv_tlv_list_clear(&l);
	return 0;
}''')
s('s10b-duplicate-apart','P10',[(V,'for (const struct emv_tlv_t* tlv2 = tlv->next; tlv2 != NULL; tlv2 = tlv2->next) {','for (const struct emv_tlv_t* tlv2 = tlv->next; tlv2 != NULL && tlv2 != list->back; tlv2 = tlv2->next) {')],
 'a card whose very last element repeats an earlier one','a card with a repeated element is accepted',
CTX+'''
int main(void) {
	struct step t[] = { { "00B2010C00", "7016 5A0141 5F2403261231 8C039F0206 8D039F0206 5A0142 9000" }, { 0, 0 } };
	start(t, EMV_CARDREADER_MODE_APDU);
	emv_ctx_init(&c, &ttl);
	push(&c.icc, EMV_TAG_94_APPLICATION_FILE_LOCATOR, "08010100");
	CHECK(emv_read_application_data(&c) == EMV_OUTCOME_CARD_ERROR);
	emv_ctx_clear(&c);
	return 0;
}''')
s('s10c-cdol-from-selection','P10',[(E,'	if (!found_5F24 || !found_5A || !found_8C || !found_8D) {','	if (!found_8D && emv_tlv_list_find_const(&ctx->icc, EMV_TAG_8D_CDOL2)) {\n		found_8D = true;\n	}\n	if (!found_5F24 || !found_5A || !found_8C || !found_8D) {')],
 'a card that gives a CDOL2 when it is selected and none in its records','a mandatory record element may be missing',
CTX+'''
int main(void) {
	struct step t[] = { { "00B2010C00", "700E 5A0141 5F2403261231 8C039F0206 9000" }, { 0, 0 } };
	start(t, EMV_CARDREADER_MODE_APDU);
	emv_ctx_init(&c, &ttl);
	push(&c.icc, EMV_TAG_94_APPLICATION_FILE_LOCATOR, "08010100");
	push(&c.icc, EMV_TAG_8D_CDOL2, "9F0206");
	CHECK(emv_read_application_data(&c) == EMV_OUTCOME_CARD_ERROR);
	emv_ctx_clear(&c);
	return 0;
}''')
s('s10d-issuer-file-missing-record','P10',[(L,'''		if (sw1sw2 != 0x9000) {
			// Failed to READ RECORD''','''		if (sw1sw2 == 0x6A83 && afl_entry->sfi > 10) {
			// Proprietary record is not present; continue without it
			continue;
		}
		if (sw1sw2 != 0x9000) {
			// Failed to READ RECORD''')],
 'a locator entry above file 10 that promises a record which the card does not have','a missing record goes unnoticed',
CTX+'''
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; uint8_t a[8];
	struct step t[] = { { "00B2010C00", "70035A0141 9000" }, { "00B2015C00", "6A83" }, { 0, 0 } };
	start(t, EMV_CARDREADER_MODE_APDU);
	unhex("08010100 58010100", a);
	CHECK(emv_tal_read_afl_records(&ttl, a, 8, &l) != 0);
	emv_tlv_list_clear(&l);
	return 0;
}''')
s('s02b-warning-outside-range','P02',[(F,'(SW1 == 0x62 && SW2 >= 0x02 && SW2 <= 0x80)','(SW1 == 0x62 && SW2 >= 0x02 && SW2 <= 0x82)')],
 'a card that answers a case 4 command with the warning 6282 before the data','the terminal asks for 130 bytes, as if 82 were a length, instead of all that there is',
'''
int main(void) {
	struct step s[] = { { "00A4040007A000000003101000", "6282" }, { "00C0000000", "6F036200849000" }, { 0, 0 } };
	uint8_t r[300]; size_t n = 258; uint16_t sw; uint8_t c[20]; size_t cl = unhex("00A4040007A000000003101000", c);
	start(s, EMV_CARDREADER_MODE_APDU);
	CHECK(emv_ttl_trx(&ttl, c, cl, r, &n, &sw) == 0);
	CHECK(finished());
	return 0;
}''')
s('s16c-long-contact-atr','P16',[(P,'reader->atr_len == 5 + (reader->atr[1] & 0x0F)','reader->atr_len >= 5 + (reader->atr[1] & 0x0F)')],
 'a contact card whose answer to reset begins like that of a contactless card and is longer than the latter would be','a contact card is probed with a reader command and taken for a contactless one',
'''
#include "pcsc_stub.h"
#include "pcsc.h"
static unsigned asked;
static size_t card(const uint8_t* tx, size_t n, uint8_t* rx) { (void)tx; (void)n; ++asked; return unhex("01020304 9000", rx); }
int main(void) {
	pcsc_ctx_t c;
	stub_card = card;
	stub_atr_len = unhex("3B8180014140 00", stub_atr);
	CHECK(pcsc_init(&c) == 0);
	CHECK(pcsc_reader_connect(pcsc_get_reader(c, 0)) == PCSC_CARD_TYPE_CONTACT);
	CHECK(asked == 0);
	pcsc_reader_disconnect(pcsc_get_reader(c, 0));
	pcsc_release(&c);
	return 0;
}''',extra=(STUB,))
