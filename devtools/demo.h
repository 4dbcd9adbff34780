// tiny scripted card for demonstrations
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "emv.h"
#include "emv_ttl.h"
#include "emv_tal.h"
#include "emv_tlv.h"
#include "emv_app.h"
#include "emv_dol.h"
#include "emv_tags.h"
#include "emv_fields.h"
#include "emv_debug.h"
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
struct step { const char* tx; const char* rx; };
static const struct step* script; static unsigned pos, total; static bool mismatch;
static size_t unhex(const char* h, uint8_t* o) { size_t n = 0; while (*h) { if (*h == ' ') { ++h; continue; } unsigned v; sscanf(h, "%2x", &v); o[n++] = (uint8_t)v; h += 2; } return n; }
static int reader(void* ctx, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	uint8_t b[600]; size_t n;
	(void)ctx;
	if (++total > 5000) { printf("endless exchange\n"); exit(1); }
	if (pos >= 100000 || !script[pos].tx) { mismatch = true; return -1; }
	n = unhex(script[pos].tx, b);
	if (n != tx_len || memcmp(b, tx, n)) {
		mismatch = true;
		printf("step %u: expected %s, terminal sent ", pos, script[pos].tx);
		for (size_t i = 0; i < tx_len; ++i) printf("%02X", ((const uint8_t*)tx)[i]);
		printf("\n");
		return -1;
	}
	if (!script[pos].rx) { ++pos; return -1; }
	n = unhex(script[pos].rx, b); ++pos;
	if (n > *rx_len) return -1;
	memcpy(rx, b, n); *rx_len = n;
	return 0;
}
static struct emv_ttl_t ttl;
static void start(const struct step* s, int mode) { script = s; pos = 0; total = 0; mismatch = false; memset(&ttl, 0, sizeof(ttl)); ttl.cardreader.mode = mode; ttl.cardreader.trx = reader; }
static bool finished(void) { return !mismatch && !script[pos].tx; }
static void aid(struct emv_ctx_t* c, const char* h, int asi) { uint8_t b[16]; size_t n = unhex(h, b); CHECK(emv_tlv_list_push(&c->supported_aids, EMV_TAG_9F06_AID, n, b, asi) == 0); }
static void push(struct emv_tlv_list_t* l, unsigned tag, const char* h) { uint8_t b[300]; size_t n = unhex(h, b); CHECK(emv_tlv_list_push(l, tag, n, b, 0) == 0); }
#define PSE_SELECT "00A404000E315041592E5359532E444446303100"
