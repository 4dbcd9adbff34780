from mkseed import seed, T
import sys
def s(i,prop,edits,needs,breaks,demo,extra=()):
    if len(sys.argv)>1 and not any(i.startswith(a) for a in sys.argv[1:]): return
    seed(i,prop,edits,needs,breaks,demo,extra=extra)
D='src/emv_dol.c';V='src/emv_tlv.c'
s('s25-padding-not-counted','P25',[(D,'''				memset(data_ptr + tlv->length, 0, pad_len);
			}
			data_ptr += entry.length;
			*data_len -= entry.length;''','''				memset(data_ptr + tlv->length, 0, pad_len);
			}
			data_ptr += entry.length;
			*data_len -= tlv->length;''')],
 'a list that asks for more bytes of an element than the terminal holds, and room for less than the whole data','bytes are written beyond the room given, instead of a refusal',
'''
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; const struct emv_tlv_list_t* src[1] = { &l };
	uint8_t dol[6], d[32]; size_t n;
	push(&l, EMV_TAG_9F1C_TERMINAL_IDENTIFICATION, "4142");
	unhex("9F1C08 9F3704", dol);
	memset(d, 0xEE, sizeof(d)); n = 10;
	CHECK(emv_dol_build_data(dol, 6, src, 1, d, &n) != 0);
	for (int i = 10; i < 32; ++i) CHECK(d[i] == 0xEE);
	memset(d, 0xEE, sizeof(d)); n = 12;
	CHECK(emv_dol_build_data(dol, 6, src, 1, d, &n) == 0 && n == 12);
	emv_tlv_list_clear(&l);
	return 0;
}''')
s('s25b-sequence-counter-left','P25',[(V,'''		case EMV_TAG_9F41_TRANSACTION_SEQUENCE_COUNTER:
''','')],
 'a card that asks for the transaction sequence counter in another length than the terminal holds','the counter is cut off or filled at the wrong end',
'''
int main(void) {
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; const struct emv_tlv_list_t* src[1] = { &l };
	uint8_t dol[3], d[32]; size_t n;
	push(&l, EMV_TAG_9F41_TRANSACTION_SEQUENCE_COUNTER, "00001234");
	unhex("9F4102", dol);
	n = sizeof(d);
	CHECK(emv_dol_build_data(dol, 3, src, 1, d, &n) == 0 && n == 2);
	CHECK(d[0] == 0x12 && d[1] == 0x34);
	emv_tlv_list_clear(&l);
	return 0;
}''')
