From 4d28e4e51c5e5ce2de21a6e54a5dd238dde29fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 01/71] fix: send remaining command data exactly once in TPDU
 mode

When the card asks for command data in TPDU mode, the expected procedure
byte was taken from the most recent transmission even if that was command
data, and asking for all data after single bytes sent Lc bytes from the
advanced position, thus beyond the end of the command. Keep the INS of the
command header and the length of the remaining data instead. Also stop
sending data once the card has answered with status bytes.
---
 src/emv_ttl.c | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..68c6e15 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -44,6 +44,10 @@ int emv_ttl_trx(
 	uint8_t c_tpdu_header[5];
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
+	// Length of remaining C-TPDU data
+	size_t c_tpdu_data_len = 0;
+	// INS of most recent command header, used to verify procedure bytes
+	uint8_t INS;
 
 	// Next buffer to transmit
 	const void* tx_buf;
@@ -103,6 +107,7 @@ int emv_ttl_trx(
 		) {
 			// Locate C-TPDU data
 			c_tpdu_data = c_apdu + 5;
+			c_tpdu_data_len = c_tpdu_header[4]; // Lc
 		}
 
 		tx_buf = c_tpdu_header;
@@ -113,12 +118,13 @@ int emv_ttl_trx(
 		return -3;
 	}
 
+	INS = ((const uint8_t*)c_apdu)[1];
+
 	// Clear SW1-SW2 to allow it to be checked later
 	*sw1sw2 = 0;
 
 	do {
 		int r;
-		uint8_t INS;
 		uint8_t rx_buf[EMV_RAPDU_MAX];
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
@@ -140,9 +146,6 @@ int emv_ttl_trx(
 
 		emv_debug_rtpdu(rx_buf, rx_len);
 
-		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
-
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
 			SW1 = *((uint8_t*)(rx_buf + rx_len - 2));
@@ -198,11 +201,13 @@ int emv_ttl_trx(
 					return 4;
 				}
 
+				// Next transmit is all remaining data
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				tx_buf_len = c_tpdu_data_len;
 
 				// No more data available
 				c_tpdu_data = NULL;
+				c_tpdu_data_len = 0;
 
 				continue;
 			}
@@ -219,23 +224,9 @@ int emv_ttl_trx(
 				tx_buf = c_tpdu_data;
 				tx_buf_len = 1;
 				++c_tpdu_data;
+				--c_tpdu_data_len;
 
-				// Case 3: CLA INS P1 P2 Lc [Data(Lc)]
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_3S &&
-					c_tpdu_data - c_apdu >= c_apdu_len
-				) {
-					// No more data available
-					c_tpdu_data = NULL;
-				}
-
-				// Case 4: CLA INS P1 P2 Lc [Data(Lc)] Le
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_4S &&
-					c_tpdu_data - c_apdu >= c_apdu_len - 1
-				) {
+				if (!c_tpdu_data_len) {
 					// No more data available
 					c_tpdu_data = NULL;
 				}
@@ -249,6 +240,11 @@ int emv_ttl_trx(
 			return 6;
 		}
 
+		// Status bytes end the command and any remaining C-TPDU data is no longer
+		// wanted by the card
+		c_tpdu_data = NULL;
+		c_tpdu_data_len = 0;
+
 		// Process status bytes
 		// See ISO 7816-3:2006, 12.2.1, table 14
 		// See ISO 7816-4:2005, 5.1.3, table 6
@@ -393,6 +389,7 @@ int emv_ttl_trx(
 			c_tpdu_header[4] = Le;   // Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
+			INS = c_tpdu_header[1];
 
 			// Next transmission
 			continue;
-- 
2.43.0


From 52d24618704684cda5a2f19dd8fe15bad7ec6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 02/71] fix: repeat the whole C-APDU when a case 4 command has
 wrong Le

For status 6CXX in response to an APDU case 4 command, only the first four
bytes of the most recent transmission followed by Le were sent. This is
neither the command nor, in TPDU mode after the command data, a command
header at all. Repeat the whole C-APDU with the updated Le for APDU mode and
fail for TPDU mode because the C-TPDU of case 4 has no Le field.
---
 src/emv_ttl.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 68c6e15..793ed6f 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -46,6 +46,10 @@ int emv_ttl_trx(
 	const void* c_tpdu_data = NULL;
 	// Length of remaining C-TPDU data
 	size_t c_tpdu_data_len = 0;
+	// Repeated C-APDU with updated Le, only used for APDU mode
+	uint8_t c_apdu_buf[EMV_CAPDU_MAX];
+	// Whether GET RESPONSE is in progress
+	bool get_response = false;
 	// INS of most recent command header, used to verify procedure bytes
 	uint8_t INS;
 
@@ -390,6 +394,7 @@ int emv_ttl_trx(
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 			INS = c_tpdu_header[1];
+			get_response = true;
 
 			// Next transmission
 			continue;
@@ -398,10 +403,27 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
-			memcpy(c_tpdu_header, tx_buf, 4);
-			c_tpdu_header[4] = SW2; // P3 = Le
-			tx_buf = c_tpdu_header;
-			tx_buf_len = sizeof(c_tpdu_header);
+			if (apdu_case == ISO7816_APDU_CASE_4S && !get_response) {
+				if (ctx->cardreader.mode != EMV_CARDREADER_MODE_APDU ||
+					c_apdu_len > sizeof(c_apdu_buf)
+				) {
+					// For TPDU mode, the C-TPDU of case 4 has no Le field
+					return 12;
+				}
+
+				// For APDU mode, repeat the whole C-APDU
+				memcpy(c_apdu_buf, c_apdu, c_apdu_len);
+				c_apdu_buf[c_apdu_len - 1] = SW2; // Le
+				tx_buf = c_apdu_buf;
+				tx_buf_len = c_apdu_len;
+			} else {
+				if (tx_buf != c_tpdu_header) {
+					memcpy(c_tpdu_header, tx_buf, 4);
+				}
+				c_tpdu_header[4] = SW2; // P3 = Le
+				tx_buf = c_tpdu_header;
+				tx_buf_len = sizeof(c_tpdu_header);
+			}
 
 			// Next transmission
 			continue;
-- 
2.43.0


From 900ab75a68204c62a4cf3dcf40ef6fdc928f313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 03/71] fix: require R-APDU buffer to have capacity for SW1-SW2

A one byte R-APDU buffer was accepted and SW1-SW2 was then written beyond
the end of it.
---
 src/emv_ttl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 793ed6f..4b2d6a6 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -64,6 +64,11 @@ int emv_ttl_trx(
 		return -1;
 	}
 
+	if (*r_apdu_len < 2) {
+		// R-APDU buffer should have capacity for at least SW1-SW2
+		return -1;
+	}
+
 	emv_debug_capdu(c_apdu, c_apdu_len);
 
 	// Determine the APDU case
-- 
2.43.0


From 5d134a31e7ccc19335056284eaf599052985f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 04/71] fix: allow for leading INS byte when receiving TPDU

A maximum length response of 256 bytes is received as INS, response data and
SW1-SW2 in TPDU mode, which did not fit into the receive buffer.
---
 src/emv_ttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 4b2d6a6..44461a2 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -134,7 +134,7 @@ int emv_ttl_trx(
 
 	do {
 		int r;
-		uint8_t rx_buf[EMV_RAPDU_MAX];
+		uint8_t rx_buf[1 + EMV_RAPDU_MAX]; // TPDU mode has leading INS byte
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
 		uint8_t SW2;
-- 
2.43.0


From c19c11620d28a85ce700691aa651c20139c11507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 05/71] fix: limit successive status bytes without response
 data

A card that answers every transmission with 61XX or 6CXX kept emv_ttl_trx()
in an endless loop.
---
 src/emv_ttl.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 44461a2..7db8367 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -29,6 +29,9 @@
 #include <stdbool.h>
 #include <string.h>
 
+// Maximum number of successive status bytes without response data
+#define EMV_TTL_STATUS_COUNT_MAX (8)
+
 int emv_ttl_trx(
 	struct emv_ttl_t* ctx,
 	const void* c_apdu,
@@ -50,6 +53,8 @@ int emv_ttl_trx(
 	uint8_t c_apdu_buf[EMV_CAPDU_MAX];
 	// Whether GET RESPONSE is in progress
 	bool get_response = false;
+	// Number of successive transmissions without progress
+	unsigned int status_count = 0;
 	// INS of most recent command header, used to verify procedure bytes
 	uint8_t INS;
 
@@ -254,6 +259,14 @@ int emv_ttl_trx(
 		c_tpdu_data = NULL;
 		c_tpdu_data_len = 0;
 
+		// Limit the number of successive status bytes without response data to
+		// ensure that the card cannot prolong the exchange indefinitely
+		++status_count;
+		if (status_count > EMV_TTL_STATUS_COUNT_MAX) {
+			emv_debug_error("Too many status bytes without response data");
+			return 13;
+		}
+
 		// Process status bytes
 		// See ISO 7816-3:2006, 12.2.1, table 14
 		// See ISO 7816-4:2005, 5.1.3, table 6
@@ -347,6 +360,7 @@ int emv_ttl_trx(
 			memcpy(r_apdu_ptr, rx_buf + 1, rx_len);
 			r_apdu_ptr += rx_len;
 			*r_apdu_len -= rx_len;
+			status_count = 0;
 		}
 
 		// For APDU mode and a response that appears to contain response data
@@ -373,6 +387,7 @@ int emv_ttl_trx(
 			memcpy(r_apdu_ptr, rx_buf, rx_len);
 			r_apdu_ptr += rx_len;
 			*r_apdu_len -= rx_len;
+			status_count = 0;
 		}
 
 		if (tx_get_response) {
-- 
2.43.0


From d9b4d4c77afca811eeb80a182985fe5efd242b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 06/71] fix: stop reading PSE directory after the last possible
 record

---
 src/emv_tal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..98aa500 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,10 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	// NOTE: Record numbers are limited to the range 1 - 255 and therefore the
+	// loop should end even if the card never indicates the last record
+	// See ISO 7816-4:2005, 7.3.1
+	for (unsigned int record_number = 1; record_number <= 255; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
-- 
2.43.0


From c8481842fe45f406f22eb8c0812669f237232f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 07/71] fix: ignore PSE when its SFI is out of range

---
 src/emv_tal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 98aa500..9cfb051 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -137,7 +137,11 @@ int emv_tal_read_pse(
 		r = EMV_TAL_RESULT_PSE_SFI_NOT_FOUND;
 		goto exit;
 	}
-	if (pse_sfi->length != 1 || !pse_sfi->value) {
+	if (pse_sfi->length != 1 ||
+		!pse_sfi->value ||
+		pse_sfi->value[0] < 1 ||
+		pse_sfi->value[0] > 30
+	) {
 		emv_debug_trace_data("pse_sfi=", pse_sfi->value, pse_sfi->length);
 
 		// Invalid SFI for PSE; terminal may continue session
-- 
2.43.0


From af4e17e1781092826ba4b585af93ff5270a2b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 08/71] fix: use the decoded tag when reporting an unexpected
 PSE record

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 9cfb051..4fd5cfb 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -247,7 +247,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From 586a8001e03df1bd9b671e03ea9bc9db24460cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 09/71] fix: limit the number of further occurrences per
 partial AID

---
 src/emv_tal.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 4fd5cfb..747fd35 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -34,6 +34,9 @@
 #include <stdint.h>
 #include <string.h>
 
+// Maximum number of further occurrences to SELECT for each partial AID
+#define EMV_TAL_SELECT_NEXT_MAX (255)
+
 // Helper functions
 static int emv_tal_parse_aef_record(
 	struct emv_tlv_list_t* pse_tlv_list,
@@ -310,6 +313,7 @@ int emv_tal_find_supported_apps(
 	int r;
 	struct emv_tlv_t* aid;
 	bool exact_match;
+	unsigned int next_count = 0;
 
 	if (!ttl || !supported_aids || !app_list) {
 		// Invalid parameters; terminate session
@@ -329,6 +333,7 @@ int emv_tal_find_supported_apps(
 			// SELECT application
 			// See EMV 4.4 Book 1, 12.3.3, step 1
 			emv_debug_info_data("SELECT application", aid->value, aid->length);
+			next_count = 0;
 			r = emv_ttl_select_by_df_name(ttl, aid->value, aid->length, fci, &fci_len, &sw1sw2);
 			if (r) {
 				emv_debug_trace_msg("emv_ttl_select_by_df_name() failed; r=%d", r);
@@ -346,10 +351,19 @@ int emv_tal_find_supported_apps(
 				return EMV_TAL_ERROR_CARD_BLOCKED;
 			}
 
+		} else if (next_count >= EMV_TAL_SELECT_NEXT_MAX) {
+			// Card keeps providing further occurrences; continue to next
+			// supported AID
+			emv_debug_error("Too many occurrences of partial AID");
+			aid = aid->next;
+			exact_match = true;
+			continue;
+
 		} else {
 			// SELECT next application for partial AID match
 			// See EMV 4.4 Book 1, 12.3.3, step 7
 			emv_debug_info_data("SELECT next application", aid->value, aid->length);
+			++next_count;
 			r = emv_ttl_select_by_df_name_next(ttl, aid->value, aid->length, fci, &fci_len, &sw1sw2);
 			if (r) {
 				emv_debug_trace_msg("emv_ttl_select_by_df_name_next() failed; r=%d", r);
-- 
2.43.0


From ad5cec66dcc29397d97626e61bcf80e20d3e5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 10/71] fix: stop reading records after record 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 747fd35..ddc5558 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -775,7 +775,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From 8e63d30957cdb74af4ed3238253e89823530a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 11/71] fix: do not inspect the first byte of an empty record

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index ddc5558..cb1bbb5 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -813,7 +813,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (!record_len || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 585f405b288e0602abc1c1c5e423086a5374813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 12/71] fix: reject any additional data after the record
 template

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index cb1bbb5..fca6226 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -847,7 +847,7 @@ static int emv_tal_read_sfi_records(
 				emv_debug_error("Invalid record template tag 0x%02X", record_template.tag);
 				return EMV_TAL_ERROR_READ_RECORD_INVALID;
 			}
-			if (record_template.length + 3 < record_len) { // 3 bytes for ID and 2-byte length
+			if (r != record_len) {
 				// Record should contain a single record template without
 				// additional data after it
 				// See EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 10022d61d7f1790eee61b6c4f52f6e2c17bbc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:09 +0000
Subject: [PATCH 13/71] fix: do not output AIP that does not outlive failed GPO
 processing

---
 src/emv_tal.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index fca6226..52ae902 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -576,6 +576,8 @@ int emv_tal_get_processing_options(
 	struct iso8825_tlv_t gpo_tlv;
 	struct emv_tlv_list_t gpo_list = EMV_TLV_LIST_INIT;
 	const struct emv_tlv_t* tlv;
+	const struct emv_tlv_t* gpo_aip;
+	const struct emv_tlv_t* gpo_afl;
 
 	if (!ttl || !list) {
 		// Invalid parameters; terminate session
@@ -716,7 +718,7 @@ int emv_tal_get_processing_options(
 		}
 	}
 
-	// Populate AIP pointer
+	// Find AIP
 	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
 	if (!tlv) {
 		// Mandatory field missing; terminate session
@@ -725,11 +727,9 @@ int emv_tal_get_processing_options(
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (aip) {
-		*aip = tlv;
-	}
+	gpo_aip = tlv;
 
-	// Populate AFL pointer
+	// Find AFL
 	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
 	if (!tlv) {
 		// Mandatory field missing; terminate session
@@ -738,9 +738,7 @@ int emv_tal_get_processing_options(
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (afl) {
-		*afl = tlv;
-	}
+	gpo_afl = tlv;
 
 	r = emv_tlv_list_append(list, &gpo_list);
 	if (r) {
@@ -752,6 +750,14 @@ int emv_tal_get_processing_options(
 		goto exit;
 	}
 
+	// Output
+	if (aip) {
+		*aip = gpo_aip;
+	}
+	if (afl) {
+		*afl = gpo_afl;
+	}
+
 	// Successful GPO processing
 	r = 0;
 	goto exit;
-- 
2.43.0


From e71afc5a9b0f9269bccda9a59c9ff22c0870515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 14/71] fix: do not dereference NULL context when initiating
 application processing

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..90e8b5e 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,7 +502,7 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
-- 
2.43.0


From a620f081b7e1ffdea818f14271baa1e5a32c1e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 15/71] fix: refuse to initiate application processing twice
 for one selection

---
 src/emv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/emv.c b/src/emv.c
index 90e8b5e..90bc025 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -507,6 +507,14 @@ int emv_initiate_application_processing(
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
 
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data has already been moved to ICC data list by a
+		// previous invocation. The application must be selected again before
+		// application processing can be initiated again.
+		emv_debug_error("Application processing already initiated");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
+
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
 	emv_tlv_list_clear(&ctx->terminal);
-- 
2.43.0


From 983e10d046b87e934995406b996f2666c34d08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 16/71] fix: allow for 3-byte UTF-8 characters in application
 display name

---
 src/emv_app.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.h b/src/emv_app.h
index 7fe3b37..1191f9a 100644
--- a/src/emv_app.h
+++ b/src/emv_app.h
@@ -50,7 +50,7 @@ struct emv_app_t {
 	 * - Dedicated File (DF) Name (field 84, max 32 chars)
 	 * in order of priority, if found in @c tlv_list
 	 */
-	char display_name[33];
+	char display_name[(16 * 3) + 1];
 
 	/**
 	 * Application priority ordering, as provided by Application Priority
-- 
2.43.0


From 43dc505b08e116e381307a6545cf12257bc35fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:52 +0000
Subject: [PATCH 17/71] fix: report internal error consistently when reading
 application data

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 90bc025..a1a1a50 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -800,7 +800,7 @@ int emv_read_application_data(struct emv_ctx_t* ctx)
 
 		// Internal error; terminate session
 		emv_debug_error("Internal error");
-		r = EMV_TAL_ERROR_INTERNAL;
+		r = EMV_ERROR_INTERNAL;
 		goto exit;
 	}
 
-- 
2.43.0


From 027e5bafaffcaeb0d8109699ae779846017dd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:52 +0000
Subject: [PATCH 18/71] fix: keep card order of candidate applications without
 priority

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..1046d4e 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -520,7 +520,7 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// implementation chooses to favour applications with a priority
 		// indicator over those without.
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
+			if (app->priority && !cur->priority) {
 				break;
 			}
 			if (app->priority && app->priority < cur->priority) {
-- 
2.43.0


From 71b13001f3db02f3381b6b494e1c0adb790f9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:46 +0000
Subject: [PATCH 19/71] fix: reject empty FCI instead of using uninitialised
 TLV

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 1046d4e..7721535 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -99,7 +99,7 @@ struct emv_app_t* emv_app_create_from_fci(const void* fci, size_t fci_len)
 
 	// Parse FCI template
 	r = iso8825_ber_decode(fci, fci_len, &tlv);
-	if (r != fci_len) {
+	if (r <= 0 || r != fci_len) {
 		// Parse error
 		goto error;
 	}
-- 
2.43.0


From 32cb951cea6a5f20feb83b94266df9efc893adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:26 +0000
Subject: [PATCH 20/71] fix: reject ATR with too few historical bytes for
 status indicator

Historical bytes of category 0x00 end with three mandatory status indicator
bytes. If fewer were present, the length of the historical bytes underflowed
and the COMPACT-TLV parsing read beyond the ATR.
---
 src/iso7816.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..91e5998 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -193,6 +193,11 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		// See ISO 7816-4:2005, 8.1.1
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
+				if (atr_info->historical_bytes_len < 3) {
+					// Insufficient historical bytes for mandatory status indicator
+					return 5;
+				}
+
 				// Store status indicator bytes for later parsing
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
-- 
2.43.0


From c1f50deabefa1905161daf993f4a4bca841d54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 21/71] fix: accept ATR without COMPACT-TLV objects in
 historical bytes

An ATR with a category indicator byte that is not followed by any COMPACT-TLV
data objects is valid, but was rejected.
---
 src/iso7816.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 91e5998..08f6b41 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -719,6 +719,11 @@ static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size
 	struct iso7816_compact_tlv_itr_t itr;
 	struct iso7816_compact_tlv_t tlv;
 
+	if (!historical_bytes_len) {
+		// No COMPACT-TLV data objects present
+		return 0;
+	}
+
 	r = iso7816_compact_tlv_itr_init(historical_bytes, historical_bytes_len, &itr);
 	if (r) {
 		return 24;
-- 
2.43.0


From f44378a9677950198713109acbf1c1fd522c2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:28 +0000
Subject: [PATCH 22/71] fix: do not parse ATR interface byte TD4 as historical
 byte

When TD4 was present, the historical bytes were taken from one byte too early
and therefore included TD4 while the last historical byte was taken as TCK.
---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 08f6b41..ddfb86c 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -159,6 +159,16 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 			if (protocol != ISO7816_PROTOCOL_T0) {
 				tck_mandatory = true;
 			}
+
+			if (i == 4) {
+				// No further interface bytes are supported
+				if (*atr_info->TD[i] & ~ISO7816_ATR_Tx_OTHER_MASK) {
+					return 9;
+				}
+
+				// Advance past TD4
+				++atr_idx;
+			}
 		} else {
 			// No more interface bytes remaining
 			break;
-- 
2.43.0


From b5bd9f9df0035d7ff4b2615a71a90f2892daf3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:28 +0000
Subject: [PATCH 23/71] fix: use only the first ATR interface bytes of a
 protocol

ISO 7816-3 defines the protocol parameters to be those of the first TA, TB and
TC for the protocol, but those of a repeated TDi with the same protocol replaced
them. As a result the EMV rule for CWI was evaluated with a different TBi than
the one that was checked.
---
 src/iso7816.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index ddfb86c..23935fa 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -35,6 +35,7 @@ static int iso7816_atr_parse_TDi(unsigned int i, uint8_t TDi, struct iso7816_atr
 static int iso7816_atr_parse_TA2(uint8_t TA2, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TB2(uint8_t TB2, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TC2(uint8_t TC2, struct iso7816_atr_info_t* atr_info);
+static bool iso7816_atr_is_repeated(const uint8_t* const* Tx, uint8_t protocol, unsigned int i, const struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TCi(uint8_t protocol, unsigned int i, uint8_t TCi, struct iso7816_atr_info_t* atr_info);
@@ -504,8 +505,29 @@ static int iso7816_atr_parse_TC2(uint8_t TC2, struct iso7816_atr_info_t* atr_inf
 	return 0;
 }
 
+static bool iso7816_atr_is_repeated(const uint8_t* const* Tx, uint8_t protocol, unsigned int i, const struct iso7816_atr_info_t* atr_info)
+{
+	// Interface bytes after TD2 belong to the protocol indicated by the
+	// preceding TDi
+	for (unsigned int j = 3; j < i; ++j) {
+		if (Tx[j] &&
+			atr_info->TD[j-1] &&
+			(*atr_info->TD[j-1] & ISO7816_ATR_Tx_OTHER_MASK) == protocol
+		) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi, struct iso7816_atr_info_t* atr_info)
 {
+	if (iso7816_atr_is_repeated(atr_info->TA, protocol, i, atr_info)) {
+		// Only first TA for the protocol provides interface parameters
+		return 0;
+	}
+
 	// Global interface parameters
 	if (protocol == ISO7816_PROTOCOL_T15) {
 		// First TA for T=15 encodes class indicator Y in bits 1 to 6
@@ -546,6 +568,11 @@ static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi,
 
 static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi, struct iso7816_atr_info_t* atr_info)
 {
+	if (iso7816_atr_is_repeated(atr_info->TB, protocol, i, atr_info)) {
+		// Only first TB for the protocol provides interface parameters
+		return 0;
+	}
+
 	// Global interface parameters
 	if (protocol == ISO7816_PROTOCOL_T15) {
 		// First TB for T=15 indicates the use of SPU by the card (ISO 7816-3:2006, 8.3, page 20)
@@ -590,6 +617,11 @@ static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi,
 
 static int iso7816_atr_parse_TCi(uint8_t protocol, unsigned int i, uint8_t TCi, struct iso7816_atr_info_t* atr_info)
 {
+	if (iso7816_atr_is_repeated(atr_info->TC, protocol, i, atr_info)) {
+		// Only first TC for the protocol provides interface parameters
+		return 0;
+	}
+
 	// Protocol T=1 parameters
 	if (protocol == ISO7816_PROTOCOL_T1) {
 		// First TC for T=1 indicates the error detection code to be used (ISO 7816-3:2006, 11.4.4)
-- 
2.43.0


From bcd8da8fc0e76e367156016fbc482a6e23e74407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:00 +0000
Subject: [PATCH 24/71] fix: report memory shortage during PC/SC initialisation

The results of the memory allocations were used without checking them.
---
 src/pcsc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..a5848ae 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -109,6 +109,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	}
 
 	*ctx = malloc(sizeof(struct pcsc_t));
+	if (!*ctx) {
+		return -1;
+	}
 	pcsc = *ctx;
 	memset(pcsc, 0, sizeof(*pcsc));
 
@@ -130,6 +133,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and retrieve the reader list
 	pcsc->reader_strings = malloc(pcsc->reader_strings_size);
+	if (!pcsc->reader_strings) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
@@ -147,6 +154,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader objects
 	pcsc->readers = calloc(pcsc->reader_count, sizeof(struct pcsc_reader_t));
+	if (!pcsc->readers) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
 	current_reader_name = pcsc->reader_strings;
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
@@ -157,6 +168,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader states
 	pcsc->reader_states = calloc(pcsc->reader_count, sizeof(SCARD_READERSTATE));
+	if (!pcsc->reader_states) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->reader_states[i].szReader = pcsc->readers[i].name;
-- 
2.43.0


From 67b329c3a69401c7d8147babab77cb5ee40b45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:00 +0000
Subject: [PATCH 25/71] fix: do not release PC/SC context that was never
 established

---
 src/pcsc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index a5848ae..198fbab 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -119,7 +119,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	result = SCardEstablishContext(SCARD_SCOPE_SYSTEM, NULL, NULL, &pcsc->context);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardEstablishContext() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		pcsc_release(ctx);
+		// There is no PC/SC context to release
+		free(pcsc);
+		*ctx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 194b6781ef3f1c931541c1e1bd29d622338d5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 26/71] fix: do not disconnect from PC/SC reader that was never
 connected

When the direct connection to a reader failed, an uninitialised handle was
disconnected.
---
 src/pcsc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 198fbab..001903b 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -216,8 +216,8 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		// There is no connection to disconnect
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From 1d0803cbbb942a0edabe0915588525fd1248dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 27/71] fix: discard PC/SC reader features and properties that
 were not retrieved

A feature list with an invalid length field was rejected but its features were
nonetheless reported. The same applied to the length provided by a failing
control command.
---
 src/pcsc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 001903b..c1d11d5 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -232,6 +232,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardControl(CM_IOCTL_GET_FEATURE_REQUEST) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
+		reader->features.buf_len = 0; // Invalidate buffer length
 		r = -3;
 		goto exit;
 	}
@@ -250,6 +251,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	while ((void*)pcsc_tlv - (void*)reader->features.buf < reader->features.buf_len) {
 		if (pcsc_tlv->length != 4) {
 			fprintf(stderr, "Failed to parse PC/SC reader features\n");
+			reader->features.buf_len = 0; // Invalidate buffer length
 			r = -5;
 			goto exit;
 		}
@@ -274,6 +276,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 		);
 		if (result != SCARD_S_SUCCESS) {
 			fprintf(stderr, "SCardControl(%04X) failed; result=0x%x [%s]\n", (unsigned int)control_code, (unsigned int)result, pcsc_stringify_error(result));
+			reader->features.pin_properties_len = 0; // Invalidate buffer length
 			r = -7;
 			goto exit;
 		}
@@ -303,6 +306,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 		);
 		if (result != SCARD_S_SUCCESS) {
 			fprintf(stderr, "SCardControl(%04X) failed; result=0x%x [%s]\n", (unsigned int)control_code, (unsigned int)result, pcsc_stringify_error(result));
+			reader->features.display_properties_len = 0; // Invalidate buffer length
 			r = -10;
 			goto exit;
 		}
@@ -332,6 +336,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 		);
 		if (result != SCARD_S_SUCCESS) {
 			fprintf(stderr, "SCardControl(%04X) failed; result=0x%x [%s]\n", (unsigned int)control_code, (unsigned int)result, pcsc_stringify_error(result));
+			reader->features.properties_len = 0; // Invalidate buffer length
 			r = -13;
 			goto exit;
 		}
-- 
2.43.0


From d6049b8361a9bf00baed5c738811aa00c66da7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 28/71] fix: do not read beyond PC/SC reader TLV properties

The remaining length was reduced by the length of the next property instead of
the current one, and a property longer than the remaining length caused it to
wrap around.
---
 src/pcsc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index c1d11d5..e8502d0 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -522,8 +522,14 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
-		tlv += (2 + tlv[1]);
+		if (tlv[1] > tlv_len - 2) {
+			// Malformed properties
+			break;
+		}
+
+		// Take care to compute length before advancing
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0


From aab068c646a1fe1678c3f53a748b75e8f2abb4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:40 +0000
Subject: [PATCH 29/71] fix: keep PC/SC card connections balanced when
 connecting fails

A failure after the connection was made left the card connected while the caller
was told that there is no connection, a repeated connect lost the handle of the
previous connection, a disconnect without connection used an invalid handle, and
a failed connect left the ATR of the previous card in place.
---
 src/pcsc.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index e8502d0..455f2b5 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -80,6 +80,7 @@ struct pcsc_reader_t {
 	struct pcsc_reader_features_t features;
 
 	// Populated by SCardConnect()
+	bool connected;
 	SCARDHANDLE card;
 	DWORD protocol;
 
@@ -97,6 +98,7 @@ struct pcsc_reader_t {
 static int pcsc_reader_populate_features(struct pcsc_reader_t* reader);
 static int pcsc_reader_get_feature(struct pcsc_reader_t* reader, unsigned int feature, LPDWORD control_code);
 static int pcsc_reader_internal_get_uid(pcsc_reader_ctx_t reader_ctx, uint8_t* uid, size_t* uid_len);
+static void pcsc_reader_clear_card_attributes(struct pcsc_reader_t* reader);
 
 int pcsc_init(pcsc_ctx_t* ctx)
 {
@@ -725,6 +727,15 @@ static int pcsc_reader_internal_get_uid(pcsc_reader_ctx_t reader_ctx, uint8_t* u
 	return 0;
 }
 
+static void pcsc_reader_clear_card_attributes(struct pcsc_reader_t* reader)
+{
+	memset(reader->atr, 0, sizeof(reader->atr));
+	reader->atr_len = 0;
+	memset(reader->uid, 0, sizeof(reader->uid));
+	reader->uid_len = 0;
+	reader->type = PCSC_CARD_TYPE_UNKNOWN;
+}
+
 int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 {
 	struct pcsc_reader_t* reader;
@@ -736,6 +747,13 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 	}
 	reader = reader_ctx;
 
+	// Disconnect from previous card, if any, and ensure that its attributes
+	// are never mistaken for those of the current card
+	pcsc_reader_clear_card_attributes(reader);
+	if (reader->connected && pcsc_reader_disconnect(reader)) {
+		return -1;
+	}
+
 	// Connect to reader and power up the card
 	result = SCardConnect(
 		reader->pcsc->context,
@@ -747,8 +765,11 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
+		reader->card = 0;
+		reader->protocol = SCARD_PROTOCOL_UNDEFINED;
 		return -1;
 	}
+	reader->connected = true;
 
 	state = 0;
 	reader->atr_len = sizeof(reader->atr);
@@ -756,6 +777,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardStatus() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
 		pcsc_reader_disconnect(reader);
+		pcsc_reader_clear_card_attributes(reader);
 		return -1;
 	}
 
@@ -780,6 +802,8 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
+			pcsc_reader_clear_card_attributes(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
@@ -805,6 +829,10 @@ int pcsc_reader_disconnect(pcsc_reader_ctx_t reader_ctx)
 	}
 	reader = reader_ctx;
 
+	if (!reader->connected) {
+		return -1;
+	}
+
 	// Disconnect from reader and unpower card
 	result = SCardDisconnect(reader->card, SCARD_UNPOWER_CARD);
 	if (result != SCARD_S_SUCCESS) {
@@ -813,11 +841,10 @@ int pcsc_reader_disconnect(pcsc_reader_ctx_t reader_ctx)
 	}
 
 	// Clear card attributes
+	reader->connected = false;
 	reader->card = 0;
 	reader->protocol = SCARD_PROTOCOL_UNDEFINED;
-	memset(reader->atr, 0, sizeof(reader->atr));
-	reader->atr_len = 0;
-	reader->type = PCSC_CARD_TYPE_UNKNOWN;
+	pcsc_reader_clear_card_attributes(reader);
 
 	return 0;
 }
-- 
2.43.0


From faf21ba0638c2633f1ee75c65c04971e4b1c2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 30/71] fix: keep waiting for card until timeout when other
 reader changes occur

A change of reader state other than the presence of a card, for example a reader
that was unplugged, ended the wait immediately and was reported as timeout
although time remained. Continue waiting for the remaining time instead.
---
 src/pcsc.c | 91 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 24 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 455f2b5..6905d5a 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -34,6 +34,9 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#ifndef _WIN32
+#include <time.h>
+#endif
 
 // For ntohl and friends
 #if defined(HAVE_ARPA_INET_H)
@@ -99,6 +102,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader);
 static int pcsc_reader_get_feature(struct pcsc_reader_t* reader, unsigned int feature, LPDWORD control_code);
 static int pcsc_reader_internal_get_uid(pcsc_reader_ctx_t reader_ctx, uint8_t* uid, size_t* uid_len);
 static void pcsc_reader_clear_card_attributes(struct pcsc_reader_t* reader);
+static uint64_t pcsc_get_time_ms(void);
 
 int pcsc_init(pcsc_ctx_t* ctx)
 {
@@ -626,16 +630,35 @@ int pcsc_reader_get_state(pcsc_reader_ctx_t reader_ctx, unsigned int* state)
 	return 0;
 }
 
+static uint64_t pcsc_get_time_ms(void)
+{
+#ifdef _WIN32
+	return GetTickCount64();
+#else
+	struct timespec t = { 0, 0 };
+
+	clock_gettime(CLOCK_MONOTONIC, &t);
+	return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
+#endif
+}
+
 int pcsc_wait_for_card(pcsc_ctx_t ctx, unsigned long timeout_ms, size_t* idx)
 {
 	struct pcsc_t* pcsc;
 	LONG result;
+	uint64_t start_ms;
+	unsigned long remaining_ms = timeout_ms;
 
 	if (!ctx || !idx) {
 		return -1;
 	}
 	pcsc = ctx;
 
+	if (*idx != PCSC_READER_ANY && *idx >= pcsc->reader_count) {
+		// Invalid reader index
+		return -1;
+	}
+
 	// Prepare reader states for card detection
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		if (*idx == PCSC_READER_ANY || *idx == i) {
@@ -643,35 +666,55 @@ int pcsc_wait_for_card(pcsc_ctx_t ctx, unsigned long timeout_ms, size_t* idx)
 		} else {
 			pcsc->reader_states[i].dwCurrentState = SCARD_STATE_IGNORE;
 		}
+		pcsc->reader_states[i].dwEventState = 0;
 	}
 
-	// Wait for empty state to change
-	result = SCardGetStatusChange(
-		pcsc->context,
-		timeout_ms,
-		pcsc->reader_states,
-		pcsc->reader_count
-	);
-	if (result == SCARD_E_TIMEOUT) {
-		// Timeout
-		return 1;
-	}
-	if (result != SCARD_S_SUCCESS) {
-		fprintf(stderr, "SCardGetStatusChange() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		return -1;
-	}
+	start_ms = pcsc_get_time_ms();
+	while (true) {
+		uint64_t elapsed_ms;
 
-	// Find first reader with card
-	for (size_t i = 0; i < pcsc->reader_count; ++i) {
-		if (pcsc->reader_states[i].dwEventState & SCARD_STATE_PRESENT) {
-			*idx = i;
-			return 0;
+		// Wait for reader state to change
+		result = SCardGetStatusChange(
+			pcsc->context,
+			remaining_ms,
+			pcsc->reader_states,
+			pcsc->reader_count
+		);
+		if (result == SCARD_E_TIMEOUT) {
+			// Timeout
+			return 1;
+		}
+		if (result != SCARD_S_SUCCESS) {
+			fprintf(stderr, "SCardGetStatusChange() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
+			return -1;
 		}
-	}
 
-	// No cards detected
-	*idx = -1;
-	return 1;
+		// Find first reader with card
+		for (size_t i = 0; i < pcsc->reader_count; ++i) {
+			if (pcsc->reader_states[i].dwCurrentState == SCARD_STATE_IGNORE) {
+				continue;
+			}
+
+			if (pcsc->reader_states[i].dwEventState & SCARD_STATE_PRESENT) {
+				*idx = i;
+				return 0;
+			}
+
+			// Reader state changed for another reason; only wait for
+			// changes from now on
+			pcsc->reader_states[i].dwCurrentState = pcsc->reader_states[i].dwEventState & ~SCARD_STATE_CHANGED;
+		}
+
+		// Continue waiting for the remaining time
+		if (timeout_ms != PCSC_TIMEOUT_INFINITE) {
+			elapsed_ms = pcsc_get_time_ms() - start_ms;
+			if (elapsed_ms >= timeout_ms) {
+				// Timeout
+				return 1;
+			}
+			remaining_ms = timeout_ms - elapsed_ms;
+		}
+	}
 }
 
 static int pcsc_reader_internal_get_uid(pcsc_reader_ctx_t reader_ctx, uint8_t* uid, size_t* uid_len)
-- 
2.43.0


From ceea0b0ca4a2cb14bd8dbbd054eed3d780c7474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:53 +0000
Subject: [PATCH 31/71] fix: avoid overflow when computing ATR block waiting
 time

The intermediate value exceeds 32 bits for large BWI and Di, for example BWI=9
and Di=32, such that BWT was wrong.
---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 23935fa..c4d79e7 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -752,7 +752,7 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	atr_info->protocol_T1.BWT = 11 + (((1ULL << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From 8de41eed0cfadc6afac3f1584080ddb5d405b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:11 +0000
Subject: [PATCH 32/71] fix: terminate date and time digits inside their
 buffers

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..52fcc01 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1806,7 +1806,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1879,7 +1879,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From 22db7716f1d0f382f7aaf4f0ebf051e6406b340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:53 +0000
Subject: [PATCH 33/71] fix: let --debug-source ALL enable all debug sources

---
 tools/emv-tool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index b332630..94a1cc9 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -213,8 +213,12 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 					argp_error(state, "Unknown debug source (--debug-source) argument \"%s\"", str);
 				}
 
-				// Found debug source string in list; shift into mask
-				debug_sources_mask |= 1 << i;
+				if (strcasecmp(str, "ALL") == 0) {
+					debug_sources_mask |= EMV_DEBUG_SOURCE_ALL;
+				} else {
+					// Found debug source string in list; shift into mask
+					debug_sources_mask |= 1 << i;
+				}
 
 				arg = NULL;
 			}
-- 
2.43.0


From 135efddfd47ea05420323e9658dbbf6faba3091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:53 +0000
Subject: [PATCH 34/71] fix: do not start transaction with an amount that was
 reported as invalid

---
 tools/emv-tool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 94a1cc9..29cce7c 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -653,6 +653,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Transaction amount (--txn-amount) argument must be non-zero\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	if (txn_type == EMV_TRANSACTION_TYPE_CASHBACK &&
@@ -660,6 +661,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Secondary transaction amount (--txn-amount-other) must be non-zero for cashback transaction\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	r = emv_strings_init(isocodes_path, mcc_json);
-- 
2.43.0


From cf20c4fabccf21b0d2f446dca39946e8ac9700ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 35/71] fix: accept only digits for transaction type and
 amounts

---
 tools/emv-tool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 29cce7c..49a27e2 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -130,7 +130,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len != 2) {
+			if (arg_len != 2 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Transaction type (--txn-type) argument must be 2 numeric digits");
 			}
 
@@ -149,7 +149,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Transaction amount (--txn-amount) argument must be numeric digits");
 			}
 
@@ -172,7 +172,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || strspn(arg, "0123456789") != arg_len) {
 				argp_error(state, "Secondary transaction amount (--txn-amount-other) argument must be numeric digits");
 			}
 
-- 
2.43.0


From a7d10a9486a8dc598ab74e75461c5e3fce41e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 36/71] fix: stop when cardholder selection input has ended

---
 tools/emv-tool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 49a27e2..78cc271 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -831,8 +831,9 @@ int main(int argc, char** argv)
 			}
 			printf("Enter number: ");
 			if (!fgets(s, sizeof(s), stdin)) {
-				printf("Invalid input. Try again.\n");
-				continue;
+				// Input has ended; no further selection is possible
+				printf("No input\n");
+				goto emv_exit;
 			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
-- 
2.43.0


From 8c9b8d0f9725affd234a95fdaa5ac7dd7ed4b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 37/71] fix: do not use part of an input line as application
 selection

---
 tools/emv-tool.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 78cc271..0f506af 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -835,6 +835,16 @@ int main(int argc, char** argv)
 				printf("No input\n");
 				goto emv_exit;
 			}
+			if (!strchr(s, '\n') && !feof(stdin)) {
+				int c;
+
+				// Input line is too long; discard remainder
+				do {
+					c = getchar();
+				} while (c != '\n' && c != EOF);
+				printf("Invalid input. Try again.\n");
+				continue;
+			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
 				printf("Invalid input. Try again.\n");
-- 
2.43.0


From 9ad86d65389eee5ee12dc5395526386146548939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 38/71] fix: do not start transaction when terminal data could
 not be loaded

---
 tools/emv-tool.c | 77 +++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 0f506af..90fe062 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -47,8 +47,8 @@ struct emv_txn_t;
 static error_t argp_parser_helper(int key, char* arg, struct argp_state* state);
 static const char* pcsc_get_reader_state_string(unsigned int reader_state);
 static void print_pcsc_readers(pcsc_ctx_t pcsc);
-static void emv_txn_load_params(struct emv_ctx_t* emv, uint32_t txn_seq_cnt, uint8_t txn_type, uint32_t amount, uint32_t amount_other);
-static void emv_txn_load_config(struct emv_ctx_t* emv);
+static int emv_txn_load_params(struct emv_ctx_t* emv, uint32_t txn_seq_cnt, uint8_t txn_type, uint32_t amount, uint32_t amount_other);
+static int emv_txn_load_config(struct emv_ctx_t* emv);
 
 // argp option keys
 enum emv_tool_param_t {
@@ -549,8 +549,9 @@ static void print_pcsc_readers(pcsc_ctx_t pcsc)
 	}
 }
 
-static void emv_txn_load_params(struct emv_ctx_t* emv, uint32_t txn_seq_cnt, uint8_t txn_type, uint32_t amount, uint32_t amount_other)
+static int emv_txn_load_params(struct emv_ctx_t* emv, uint32_t txn_seq_cnt, uint8_t txn_type, uint32_t amount, uint32_t amount_other)
 {
+	int r = 0;
 	time_t t = time(NULL);
 	struct tm* tm = localtime(&t);
 	uint8_t emv_date[3];
@@ -560,7 +561,7 @@ static void emv_txn_load_params(struct emv_ctx_t* emv, uint32_t txn_seq_cnt, uin
 
 	// Transaction sequence counter
 	// See EMV 4.4 Book 4, 6.5.5
-	emv_tlv_list_push(&emv->params, EMV_TAG_9F41_TRANSACTION_SEQUENCE_COUNTER, 4, emv_uint_to_format_n(txn_seq_cnt, buf, 4), 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9F41_TRANSACTION_SEQUENCE_COUNTER, 4, emv_uint_to_format_n(txn_seq_cnt, buf, 4), 0);
 
 	// Current date and time
 	tm->tm_year += date_offset; // Useful for expired test cards
@@ -570,53 +571,59 @@ static void emv_txn_load_params(struct emv_ctx_t* emv, uint32_t txn_seq_cnt, uin
 	emv_time[0] = ((tm->tm_hour / 10) << 4) | (tm->tm_hour % 10);
 	emv_time[1] = ((tm->tm_min / 10) << 4) | (tm->tm_min % 10);
 	emv_time[2] = ((tm->tm_sec / 10) << 4) | (tm->tm_sec % 10);
-	emv_tlv_list_push(&emv->params, EMV_TAG_9A_TRANSACTION_DATE, 3, emv_date, 0);
-	emv_tlv_list_push(&emv->params, EMV_TAG_9F21_TRANSACTION_TIME, 3, emv_time, 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9A_TRANSACTION_DATE, 3, emv_date, 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9F21_TRANSACTION_TIME, 3, emv_time, 0);
 
 	// Transaction currency
-	emv_tlv_list_push(&emv->params, EMV_TAG_5F2A_TRANSACTION_CURRENCY_CODE, 2, (uint8_t[]){ 0x09, 0x78 }, 0); // Euro (978)
-	emv_tlv_list_push(&emv->params, EMV_TAG_5F36_TRANSACTION_CURRENCY_EXPONENT, 1, (uint8_t[]){ 0x02 }, 0); // Currency has 2 decimal places
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_5F2A_TRANSACTION_CURRENCY_CODE, 2, (uint8_t[]){ 0x09, 0x78 }, 0); // Euro (978)
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_5F36_TRANSACTION_CURRENCY_EXPONENT, 1, (uint8_t[]){ 0x02 }, 0); // Currency has 2 decimal places
 
 	// Transaction type and amount(s)
-	emv_tlv_list_push(&emv->params, EMV_TAG_9C_TRANSACTION_TYPE, 1, &txn_type, 0);
-	emv_tlv_list_push(&emv->params, EMV_TAG_9F02_AMOUNT_AUTHORISED_NUMERIC, 6, emv_uint_to_format_n(amount, buf, 6), 0);
-	emv_tlv_list_push(&emv->params, EMV_TAG_81_AMOUNT_AUTHORISED_BINARY, 4, emv_uint_to_format_b(amount, buf, 4), 0);
-	emv_tlv_list_push(&emv->params, EMV_TAG_9F03_AMOUNT_OTHER_NUMERIC, 6, emv_uint_to_format_n(amount_other, buf, 6), 0);
-	emv_tlv_list_push(&emv->params, EMV_TAG_9F04_AMOUNT_OTHER_BINARY, 4, emv_uint_to_format_b(amount_other, buf, 4), 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9C_TRANSACTION_TYPE, 1, &txn_type, 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9F02_AMOUNT_AUTHORISED_NUMERIC, 6, emv_uint_to_format_n(amount, buf, 6), 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_81_AMOUNT_AUTHORISED_BINARY, 4, emv_uint_to_format_b(amount, buf, 4), 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9F03_AMOUNT_OTHER_NUMERIC, 6, emv_uint_to_format_n(amount_other, buf, 6), 0);
+	r |= emv_tlv_list_push(&emv->params, EMV_TAG_9F04_AMOUNT_OTHER_BINARY, 4, emv_uint_to_format_b(amount_other, buf, 4), 0);
+
+	return r ? -1 : 0;
 }
 
-static void emv_txn_load_config(struct emv_ctx_t* emv)
+static int emv_txn_load_config(struct emv_ctx_t* emv)
 {
+	int r = 0;
+
 	// Terminal config
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F01_ACQUIRER_IDENTIFIER, 6, (uint8_t[]){ 0x00, 0x01, 0x23, 0x45, 0x67, 0x89 }, 0 ); // Unique acquirer identifier
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F1A_TERMINAL_COUNTRY_CODE, 2, (uint8_t[]){ 0x05, 0x28 }, 0); // Netherlands
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F1B_TERMINAL_FLOOR_LIMIT, 4, (uint8_t[]){ 0x00, 0x00, 0x03, 0xE8 }, 0); // 1000
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F16_MERCHANT_IDENTIFIER, 15, (const uint8_t*)"0987654321     ", 0); // Unique merchant identifier
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F1C_TERMINAL_IDENTIFICATION, 8, (const uint8_t*)"TID12345", 0); // Unique location of terminal at merchant
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F1E_IFD_SERIAL_NUMBER, 8, (const uint8_t*)"12345678", 0); // Serial number
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F4E_MERCHANT_NAME_AND_LOCATION, 12, (const uint8_t*)"ACME Peanuts", 0); // Merchant Name and Location
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F01_ACQUIRER_IDENTIFIER, 6, (uint8_t[]){ 0x00, 0x01, 0x23, 0x45, 0x67, 0x89 }, 0 ); // Unique acquirer identifier
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F1A_TERMINAL_COUNTRY_CODE, 2, (uint8_t[]){ 0x05, 0x28 }, 0); // Netherlands
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F1B_TERMINAL_FLOOR_LIMIT, 4, (uint8_t[]){ 0x00, 0x00, 0x03, 0xE8 }, 0); // 1000
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F16_MERCHANT_IDENTIFIER, 15, (const uint8_t*)"0987654321     ", 0); // Unique merchant identifier
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F1C_TERMINAL_IDENTIFICATION, 8, (const uint8_t*)"TID12345", 0); // Unique location of terminal at merchant
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F1E_IFD_SERIAL_NUMBER, 8, (const uint8_t*)"12345678", 0); // Serial number
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F4E_MERCHANT_NAME_AND_LOCATION, 12, (const uint8_t*)"ACME Peanuts", 0); // Merchant Name and Location
 
 	// Terminal Capabilities:
 	// - Card Data Input Capability: IC with Contacts
 	// - CVM Capability: Plaintext offline PIN, Enciphered online PIN, Signature, Enciphered offline PIN, No CVM
 	// - Security Capability: SDA, DDA, CDA
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F33_TERMINAL_CAPABILITIES, 3, (uint8_t[]){ 0x20, 0xF8, 0xC8}, 0);
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F33_TERMINAL_CAPABILITIES, 3, (uint8_t[]){ 0x20, 0xF8, 0xC8}, 0);
 
 	// Merchant attended, offline with online capability
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F35_TERMINAL_TYPE, 1, (uint8_t[]){ 0x22 }, 0);
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F35_TERMINAL_TYPE, 1, (uint8_t[]){ 0x22 }, 0);
 
 	// Additional Terminal Capabilities:
 	// - Transaction Type Capability: Goods, Services, Cashback, Cash, Inquiry, Payment
 	// - Terminal Data Input Capability: Numeric, Alphabetic and special character keys, Command keys, Function keys
 	// - Terminal Data Output Capability: Attended print, Attended display, Code table 1 to 10
-	emv_tlv_list_push(&emv->config, EMV_TAG_9F40_ADDITIONAL_TERMINAL_CAPABILITIES, 5, (uint8_t[]){ 0xFA, 0x00, 0xF0, 0xA3, 0xFF }, 0);
+	r |= emv_tlv_list_push(&emv->config, EMV_TAG_9F40_ADDITIONAL_TERMINAL_CAPABILITIES, 5, (uint8_t[]){ 0xFA, 0x00, 0xF0, 0xA3, 0xFF }, 0);
 
 	// Supported applications
-	emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 6, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10 }, EMV_ASI_PARTIAL_MATCH); // Visa
-	emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 7, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x20, 0x10 }, EMV_ASI_EXACT_MATCH); // Visa Electron
-	emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 7, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x20, 0x20 }, EMV_ASI_EXACT_MATCH); // V Pay
-	emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 6, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x04, 0x10 }, EMV_ASI_PARTIAL_MATCH); // Mastercard
-	emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 6, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x04, 0x30 }, EMV_ASI_PARTIAL_MATCH); // Maestro
+	r |= emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 6, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x10 }, EMV_ASI_PARTIAL_MATCH); // Visa
+	r |= emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 7, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x20, 0x10 }, EMV_ASI_EXACT_MATCH); // Visa Electron
+	r |= emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 7, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x03, 0x20, 0x20 }, EMV_ASI_EXACT_MATCH); // V Pay
+	r |= emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 6, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x04, 0x10 }, EMV_ASI_PARTIAL_MATCH); // Mastercard
+	r |= emv_tlv_list_push(&emv->supported_aids, EMV_TAG_9F06_AID, 6, (uint8_t[]){ 0xA0, 0x00, 0x00, 0x00, 0x04, 0x30 }, EMV_ASI_PARTIAL_MATCH); // Maestro
+
+	return r ? -1 : 0;
 }
 
 int main(int argc, char** argv)
@@ -776,14 +783,22 @@ int main(int argc, char** argv)
 		fprintf(stderr, "emv_ctx_init() failed; r=%d\n", r);
 		goto pcsc_exit;
 	}
-	emv_txn_load_config(&emv);
-	emv_txn_load_params(
+	r = emv_txn_load_config(&emv);
+	if (r) {
+		fprintf(stderr, "Failed to load terminal configuration\n");
+		goto emv_exit;
+	}
+	r = emv_txn_load_params(
 		&emv,
 		42, // Transaction Sequence Counter
 		txn_type, // Transaction Type
 		txn_amount, // Transaction Amount
 		txn_amount_other // Transaction Amount, Other
 	);
+	if (r) {
+		fprintf(stderr, "Failed to load transaction parameters\n");
+		goto emv_exit;
+	}
 
 	printf("\nTerminal config:\n");
 	print_emv_tlv_list(&emv.config);
-- 
2.43.0


From 2d57941b72e84bc6b3f7c1ee9d39c1574a7ed8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:31 +0000
Subject: [PATCH 39/71] fix: do not crash when printing value lists without
 memory

---
 tools/print_helpers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e41caf1..e9bd17e 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -78,6 +78,11 @@ void print_str_list(
 	char* str_free = str_tmp;
 	char* save_ptr = NULL;
 
+	if (!str_tmp) {
+		// Out of memory; nothing to print
+		return;
+	}
+
 	while ((str = strtok_r(str_tmp, delim, &save_ptr))) {
 		// for strtok_r()
 		if (str_tmp) {
-- 
2.43.0


From 2b93bd894a601920d6e9748421a509126a934443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 40/71] fix: do not access missing value of DF Name when
 describing DOL entry

---
 src/emv_strings.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 52fcc01..926b874 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,6 +245,12 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
+			if (!tlv->value) {
+				// Cannot use tlv->value, even if value_str is NULL.
+				// This is typically for Data Object List (DOL) entries that
+				// have been packed into TLV entries for this function to use.
+				return 0;
+			}
 			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
 				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
 			) {
-- 
2.43.0


From 986ab0d5909c57001fb71ecf12d3b2f8d72e0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:35 +0000
Subject: [PATCH 41/71] fix: check length of command APDU before describing it

---
 src/emv_strings.c     | 2 +-
 src/iso7816_strings.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 926b874..3797344 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5982,7 +5982,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..4448fa0 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -418,7 +418,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From 414cea378dbd6c65d34907a64a854943c70d5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:24 +0000
Subject: [PATCH 42/71] fix: do not write beyond decoded object identifier

---
 src/iso8825_ber.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..2e06f26 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -294,9 +294,14 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 	--len;
 
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
+	while (len) {
 		uint32_t subid = 0;
 
+		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
+			// Too many subidentifiers
+			return -3;
+		}
+
 		// Decode multibyte subidentifier
 		while (len) {
 			// Determine whether it is the last octet of the subidentifier
-- 
2.43.0


From e50321cc38e3fd5ad0365d22795577e9c7381f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:09 +0000
Subject: [PATCH 43/71] fix: report memory shortage while loading input to
 decode

---
 tools/emv-decode.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index a5b2814..d6108ce 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -227,6 +227,9 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 				// Ensure that the buffer has enough space for odd length hex strings
 				data_len = (arg_len + 1) / 2;
 				data = malloc(data_len);
+				if (!data) {
+					argp_error(state, "Failed to allocate memory for INPUT");
+				}
 
 				r = parse_hex(arg, data, &data_len);
 				if (r < 0) {
@@ -390,9 +393,17 @@ static void* load_from_file(FILE* file, size_t* len)
 	}
 
 	do {
+		void* new_buf;
+
 		// Grow buffer
 		buf_len += block_size;
-		buf = realloc(buf, buf_len);
+		new_buf = realloc(buf, buf_len);
+		if (!new_buf) {
+			free(buf);
+			*len = 0;
+			return NULL;
+		}
+		buf = new_buf;
 
 		// Read next block
 		total_len += fread(buf + total_len, 1, block_size, file);
-- 
2.43.0


From b4b47d4c6a8111868c5e75b92384120a57042e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 44/71] fix: do not access first byte of empty fields

---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 3797344..f4e91ef 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -403,7 +403,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -557,7 +557,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -891,7 +891,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -929,7 +929,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -968,7 +968,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -1162,7 +1162,7 @@ int emv_tlv_get_info(
 					"resulting in a modified Tag '9F35', which is passed to "
 					"the card when requested.";
 				info->format = EMV_FORMAT_B;
-				if (!tlv->value) {
+				if (!tlv->value || !tlv->length) {
 					// Cannot use tlv->value[0], even if value_str is NULL.
 					// This is typically for Data Object List (DOL) entries that
 					// have been packed into TLV entries for this function to use.
-- 
2.43.0


From 4274462250c995cd536533008264c7052f810e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:55 +0000
Subject: [PATCH 45/71] fix: check string length when describing track2
 equivalent data

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index f4e91ef..b7d5af5 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2862,6 +2862,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From 5824c28000cbda8398e6e0729dc44eeff1fc1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:54 +0000
Subject: [PATCH 46/71] fix: terminate empty string lists

emv_str_list_add() terminates the string list after every item but
nothing terminated a list to which no item was ever added. For example
emv_tsi_get_string_list() succeeded for a TSI without any bits set while
leaving the output buffer untouched, such that emv-decode --tsi 0000
printed whatever the stack held.
---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index b7d5af5..d287137 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2005,6 +2005,11 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// Ensure that an empty string list is NULL terminated
+	if (len) {
+		*buf = 0;
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
-- 
2.43.0


From 238cb992e24ecc5a02ec93a7d13c03862a3c68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:20 +0000
Subject: [PATCH 47/71] fix: check length before reading Mastercard Third Party
 Data device type

The minimum length of the field when a Device Type is present was only
verified after the Device Type had been read, such that a 5 byte field
was read beyond its end.
---
 src/emv_strings.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index d287137..e9e659f 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5227,6 +5227,13 @@ int emv_mastercard_third_party_data_get_string_list(
 		char device_type[3];
 		const char* device_type_str;
 
+		// If Device Type is present, minimum field length is 7
+		tpd_len_min = 7;
+		if (tpd_len < tpd_len_min) {
+			// Invalid Mastercard Third Party Data (field 9F6E) length
+			return 1;
+		}
+
 		memcpy(device_type, tpd_ptr, 2);
 		device_type[2] = 0; // NULL terminate
 
@@ -5238,9 +5245,6 @@ int emv_mastercard_third_party_data_get_string_list(
 			emv_str_list_add(&itr, "Device Type: %s", device_type);
 		}
 
-		// If Device Type is present, minimum field length is 7
-		tpd_len_min = 7;
-
 		tpd_ptr += 2;
 	} else {
 		// If Device Type is absent, minimum field length is 5
-- 
2.43.0


From 40b2776a0ac439a2e22e8227d4ee3d6e286662b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:30 +0000
Subject: [PATCH 48/71] fix: report code table failures instead of terminating

std::stoul() throws for a numeric code that is not a number, and any
allocation may throw, but the functions that build the tables are
noexcept and their callers are C code, such that a malformed or large
file terminated the program. Report these as failures instead.
---
 src/isocodes_lookup.cpp | 36 ++++++++++++++++++++++--------------
 src/mcc_lookup.cpp      | 24 ++++++++++++++++++------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 689f2a5..44dd01e 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -26,6 +26,7 @@
 #include <vector>
 #include <map>
 #include <memory>
+#include <exception>
 #include <cstdio>
 
 // NOTE: Older versions of json-c, like the one for Ubuntu 20.04, don't specify
@@ -283,7 +284,7 @@ static int json_array_visit_userfunc(
 	return JSON_C_VISIT_RETURN_ERROR;
 }
 
-static bool build_country_list(json_object* json_root) noexcept
+static bool build_country_list(json_object* json_root)
 {
 	/* iso-codes package's iso_3166-1.json file should have this structure
 	{
@@ -344,7 +345,7 @@ static bool build_country_list(json_object* json_root) noexcept
 	return true;
 }
 
-static bool build_currency_list(json_object* json_root) noexcept
+static bool build_currency_list(json_object* json_root)
 {
 	/* iso-codes package's iso_4217.json file should have this structure
 	{
@@ -398,7 +399,7 @@ static bool build_currency_list(json_object* json_root) noexcept
 	return true;
 }
 
-static bool build_language_list(json_object* json_root) noexcept
+static bool build_language_list(json_object* json_root)
 {
 	/* iso-codes package's iso_639-2.json file should have this structure
 	{
@@ -454,12 +455,12 @@ static bool build_language_list(json_object* json_root) noexcept
 	return true;
 }
 
-int isocodes_init(const char* path)
+static int isocodes_load(const char* path)
 {
 	bool result;
 	std::string path_str;
-	json_object* json_root;
 	std::string filename;
+	std::unique_ptr<json_object,decltype(&json_object_put)> json_root(nullptr, &json_object_put);
 
 	if (path) {
 		path_str = path;
@@ -472,13 +473,12 @@ int isocodes_init(const char* path)
 
 	// Parse iso_3166-1.json and build country list
 	filename = path_str + "iso_3166-1.json";
-	json_root = json_object_from_file(filename.c_str());
+	json_root.reset(json_object_from_file(filename.c_str()));
 	if (!json_root) {
 		std::fprintf(stderr, "%s\n", json_util_get_last_err());
 		return 1;
 	}
-	result = build_country_list(json_root);
-	json_object_put(json_root);
+	result = build_country_list(json_root.get());
 	if (!result) {
 		std::fprintf(stderr, "Failed to parse %s\n", filename.c_str());
 		return -1;
@@ -486,13 +486,12 @@ int isocodes_init(const char* path)
 
 	// Parse iso_4217.json and build currency list
 	filename = path_str + "iso_4217.json";
-	json_root = json_object_from_file(filename.c_str());
+	json_root.reset(json_object_from_file(filename.c_str()));
 	if (!json_root) {
 		std::fprintf(stderr, "%s\n", json_util_get_last_err());
 		return 2;
 	}
-	result = build_currency_list(json_root);
-	json_object_put(json_root);
+	result = build_currency_list(json_root.get());
 	if (!result) {
 		std::fprintf(stderr, "Failed to parse %s\n", filename.c_str());
 		return -2;
@@ -500,13 +499,12 @@ int isocodes_init(const char* path)
 
 	// Parse iso_639-2.json and build language list
 	filename = path_str + "iso_639-2.json";
-	json_root = json_object_from_file(filename.c_str());
+	json_root.reset(json_object_from_file(filename.c_str()));
 	if (!json_root) {
 		std::fprintf(stderr, "%s\n", json_util_get_last_err());
 		return 3;
 	}
-	result = build_language_list(json_root);
-	json_object_put(json_root);
+	result = build_language_list(json_root.get());
 	if (!result) {
 		std::fprintf(stderr, "Failed to parse %s\n", filename.c_str());
 		return -3;
@@ -515,6 +513,16 @@ int isocodes_init(const char* path)
 	return 0;
 }
 
+int isocodes_init(const char* path)
+{
+	try {
+		return isocodes_load(path);
+	} catch (const std::exception& e) {
+		std::fprintf(stderr, "Failed to load iso-codes data: %s\n", e.what());
+		return -4;
+	}
+}
+
 const char* isocodes_lookup_country_by_alpha2(const char* alpha2)
 {
 	auto itr = country_alpha2_map.find(alpha2);
diff --git a/src/mcc_lookup.cpp b/src/mcc_lookup.cpp
index 7933f8c..fe3ee55 100644
--- a/src/mcc_lookup.cpp
+++ b/src/mcc_lookup.cpp
@@ -24,6 +24,9 @@
 
 #include <string>
 #include <map>
+#include <memory>
+#include <exception>
+#include <cstdio>
 
 // NOTE: Older versions of json-c, like the one for Ubuntu 20.04, don't specify
 // C linkage in the headers, which means it must be specified explicitly here
@@ -130,7 +133,7 @@ static int json_array_visit_userfunc(
 	return JSON_C_VISIT_RETURN_ERROR;
 }
 
-static bool build_mcc_list(json_object* json_root) noexcept
+static bool build_mcc_list(json_object* json_root)
 {
 	/* mcc-codes submodule's mcc_codes.json file should have this structure
 	{
@@ -171,11 +174,11 @@ static bool build_mcc_list(json_object* json_root) noexcept
 	return true;
 }
 
-int mcc_init(const char* path)
+static int mcc_load(const char* path)
 {
 	bool result;
 	std::string filename;
-	json_object* json_root;
+	std::unique_ptr<json_object,decltype(&json_object_put)> json_root(nullptr, &json_object_put);
 
 	if (path) {
 		filename = path;
@@ -184,13 +187,12 @@ int mcc_init(const char* path)
 	}
 
 	// Parse JSON file and build MCC list
-	json_root = json_object_from_file(filename.c_str());
+	json_root.reset(json_object_from_file(filename.c_str()));
 	if (!json_root) {
 		std::fprintf(stderr, "%s\n", json_util_get_last_err());
 		return 1;
 	}
-	result = build_mcc_list(json_root);
-	json_object_put(json_root);
+	result = build_mcc_list(json_root.get());
 	if (!result) {
 		std::fprintf(stderr, "Failed to parse %s\n", filename.c_str());
 		return -1;
@@ -199,6 +201,16 @@ int mcc_init(const char* path)
 	return 0;
 }
 
+int mcc_init(const char* path)
+{
+	try {
+		return mcc_load(path);
+	} catch (const std::exception& e) {
+		std::fprintf(stderr, "Failed to load mcc-codes data: %s\n", e.what());
+		return -2;
+	}
+}
+
 const char* mcc_lookup(unsigned int mcc)
 {
 	auto itr = mcc_map.find(mcc);
-- 
2.43.0


From 29a93aa78ebefa9ff15c1ce81ff9a7144d287ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:31 +0000
Subject: [PATCH 49/71] fix: discard code tables before loading them and when
 loading fails

Loading the tables again appended to the lists, which moved the entries
that the maps refer to, such that later lookups accessed freed memory.
It also made the entries of an incompletely loaded file available after
the next load, and a merchant category file that could not be loaded
completely was nevertheless used for lookups.
---
 src/isocodes_lookup.cpp | 32 ++++++++++++++++++++++++++++++--
 src/mcc_lookup.cpp      | 15 +++++++++++++--
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 44dd01e..3f542c2 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -513,14 +513,42 @@ static int isocodes_load(const char* path)
 	return 0;
 }
 
+static void isocodes_clear(void)
+{
+	// Maps refer to lists, so clear maps first
+	country_alpha2_map.clear();
+	country_alpha3_map.clear();
+	country_numeric_map.clear();
+	country_list.clear();
+
+	currency_alpha3_map.clear();
+	currency_numeric_map.clear();
+	currency_list.clear();
+
+	language_alpha2_map.clear();
+	language_alpha3_map.clear();
+	language_list.clear();
+}
+
 int isocodes_init(const char* path)
 {
+	int r;
+
+	// Discard previous data
+	isocodes_clear();
+
 	try {
-		return isocodes_load(path);
+		r = isocodes_load(path);
 	} catch (const std::exception& e) {
 		std::fprintf(stderr, "Failed to load iso-codes data: %s\n", e.what());
-		return -4;
+		r = -4;
+	}
+	if (r) {
+		// Discard incomplete data
+		isocodes_clear();
 	}
+
+	return r;
 }
 
 const char* isocodes_lookup_country_by_alpha2(const char* alpha2)
diff --git a/src/mcc_lookup.cpp b/src/mcc_lookup.cpp
index fe3ee55..03fce0b 100644
--- a/src/mcc_lookup.cpp
+++ b/src/mcc_lookup.cpp
@@ -203,12 +203,23 @@ static int mcc_load(const char* path)
 
 int mcc_init(const char* path)
 {
+	int r;
+
+	// Discard previous data
+	mcc_map.clear();
+
 	try {
-		return mcc_load(path);
+		r = mcc_load(path);
 	} catch (const std::exception& e) {
 		std::fprintf(stderr, "Failed to load mcc-codes data: %s\n", e.what());
-		return -2;
+		r = -2;
 	}
+	if (r) {
+		// Discard incomplete data
+		mcc_map.clear();
+	}
+
+	return r;
 }
 
 const char* mcc_lookup(unsigned int mcc)
-- 
2.43.0


From ef5d7c661b0eb0433482a8be466b872bd5a61a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:32 +0000
Subject: [PATCH 50/71] fix: refuse numeric codes that are out of range

A numeric code such as "4294967301" was truncated to another code, such
that the lookup of code 5 reported the name of that entry, and numeric
codes such as "12x" or "-1" were accepted.
---
 src/isocodes_lookup.cpp | 27 +++++++++++++++++++++++++--
 src/mcc_lookup.cpp      |  2 +-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 3f542c2..6a13004 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -284,6 +284,21 @@ static int json_array_visit_userfunc(
 	return JSON_C_VISIT_RETURN_ERROR;
 }
 
+static bool parse_numeric(const std::string& str, unsigned int* numeric)
+{
+	// ISO 3166-1 and ISO 4217 numeric codes consist of up to three digits
+	if (str.empty() ||
+		str.length() > 3 ||
+		str.find_first_not_of("0123456789") != std::string::npos
+	) {
+		return false;
+	}
+
+	*numeric = std::stoul(str);
+
+	return true;
+}
+
 static bool build_country_list(json_object* json_root)
 {
 	/* iso-codes package's iso_3166-1.json file should have this structure
@@ -339,7 +354,11 @@ static bool build_country_list(json_object* json_root)
 
 	// Build numeric->country map
 	for (auto&& country : country_list) {
-		country_numeric_map.emplace(std::stoul(country.numeric), country);
+		unsigned int numeric;
+		if (!parse_numeric(country.numeric, &numeric)) {
+			return false;
+		}
+		country_numeric_map.emplace(numeric, country);
 	}
 
 	return true;
@@ -393,7 +412,11 @@ static bool build_currency_list(json_object* json_root)
 
 	// Build numeric->currency map
 	for (auto&& currency : currency_list) {
-		currency_numeric_map.emplace(std::stoul(currency.numeric), currency);
+		unsigned int numeric;
+		if (!parse_numeric(currency.numeric, &numeric)) {
+			return false;
+		}
+		currency_numeric_map.emplace(numeric, currency);
 	}
 
 	return true;
diff --git a/src/mcc_lookup.cpp b/src/mcc_lookup.cpp
index 03fce0b..ff31ffc 100644
--- a/src/mcc_lookup.cpp
+++ b/src/mcc_lookup.cpp
@@ -67,7 +67,7 @@ static bool mcc_map_add(json_object* jso)
 		return false;
 	}
 	int64_t mcc_number = json_object_get_int64(mcc_obj);
-	if (mcc_number <= 0) {
+	if (mcc_number <= 0 || mcc_number > 9999) {
 		return false;
 	}
 
-- 
2.43.0


From 0af44cbe3c5151295f8a1d6d0217a27cb7fca615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 51/71] fix: do not access last character of empty path

---
 src/isocodes_lookup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 6a13004..6c122dd 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -490,7 +490,7 @@ static int isocodes_load(const char* path)
 	} else {
 		path_str = ISOCODES_JSON_PATH;
 	}
-	if (path_str.back() != '/') {
+	if (path_str.empty() || path_str.back() != '/') {
 		path_str += "/";
 	}
 
-- 
2.43.0


From d65e1fd2b2346059d25d861ed1f007bebcb77d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:55 +0000
Subject: [PATCH 52/71] fix: decode nested indefinite length BER and limit its
 nesting

The end-of-content octets of an inner field of indefinite length were taken
for those of the outer field, such that well-formed data was truncated and
reported as invalid. Also limit the depth of recursion, which was only
limited by the size of the data.
---
 src/iso8825_ber.c | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 2e06f26..43daf06 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -22,8 +22,12 @@
 
 #include "iso8825_ber.h"
 
+#include <stdbool.h>
 #include <string.h>
 
+// Maximum nesting depth of indefinite length form
+#define ISO8825_BER_INDEFINITE_DEPTH_MAX (256)
+
 int iso8825_ber_tag_decode(const void* ptr, size_t len, unsigned int* tag)
 {
 	const uint8_t* buf = ptr;
@@ -81,12 +85,20 @@ int iso8825_ber_tag_decode(const void* ptr, size_t len, unsigned int* tag)
 	return offset;
 }
 
-int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
+static int iso8825_ber_decode_internal(
+	const void* ptr,
+	size_t len,
+	struct iso8825_tlv_t* tlv,
+	unsigned int depth,
+	bool* indefinite
+)
 {
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
 
+	*indefinite = false;
+
 	if (!ptr || !tlv) {
 		return -1;
 	}
@@ -117,10 +129,16 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	// Decode length octets
 	if (buf[offset] == ISO8825_BER_LEN_INDEFINITE_FORM) {
 		// Indefinite length form
+		*indefinite = true;
 		++offset;
 		tlv->length = 0;
 		tlv->value = &buf[offset];
 
+		if (depth >= ISO8825_BER_INDEFINITE_DEPTH_MAX) {
+			// Nesting is too deep
+			return -12;
+		}
+
 		// Ensure that this is a constructed type
 		if ((buf[0] & ISO8825_BER_CONSTRUCTED) == 0) {
 			return -6;
@@ -130,8 +148,15 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		do {
 			int r;
 			struct iso8825_tlv_t inner_tlv;
-
-			r = iso8825_ber_decode(tlv->value + tlv->length, len - offset - tlv->length, &inner_tlv);
+			bool inner_indefinite;
+
+			r = iso8825_ber_decode_internal(
+				tlv->value + tlv->length,
+				len - offset - tlv->length,
+				&inner_tlv,
+				depth + 1,
+				&inner_indefinite
+			);
 			if (r < 0) {
 				// Error while decoding inner TLV
 				return -7;
@@ -149,6 +174,11 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 			// Add consumed bytes to length
 			// Exclude end-of-content from length
 			tlv->length += r;
+
+			// Inner end-of-content octets do not end the outer content
+			if (inner_indefinite) {
+				tlv->length += 2;
+			}
 		} while (true);
 
 	} else if (buf[offset] & ISO8825_BER_LEN_LONG_FORM) {
@@ -201,6 +231,13 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	return offset;
 }
 
+int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
+{
+	bool indefinite;
+
+	return iso8825_ber_decode_internal(ptr, len, tlv, 0, &indefinite);
+}
+
 bool iso8825_ber_is_string(const struct iso8825_tlv_t* tlv)
 {
 	if (!tlv) {
-- 
2.43.0


From eca3f7d0b5d786a747a36d87e66caba578fc47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:55 +0000
Subject: [PATCH 53/71] fix: limit depth of nested fields when printing

Deeply nested BER data of less than 50 kB exhausted the stack.
---
 tools/print_helpers.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e9bd17e..87d41b4 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -38,6 +38,9 @@
 #include <stdio.h>
 #include <string.h>
 
+// Maximum depth of nested fields to print
+#define PRINT_DEPTH_MAX (256)
+
 static bool str_is_list(const char* str)
 {
 	if (!str || !str[0]) {
@@ -355,6 +358,11 @@ static int print_ber_buf_internal(
 	struct iso8825_tlv_t tlv;
 	char str[1024];
 
+	if (len && depth > PRINT_DEPTH_MAX) {
+		printf("Nesting is too deep"); // Caller to print newline
+		return 0;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		printf("Failed to initialise BER iterator\n");
@@ -516,6 +524,11 @@ static int print_emv_buf_internal(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (len && depth > PRINT_DEPTH_MAX) {
+		printf("Nesting is too deep"); // Caller to print newline
+		return 0;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		printf("Failed to initialise BER iterator\n");
-- 
2.43.0


From bf41bdaee600fd875b32458b75c854075d034f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 54/71] fix: decode ISO 8859 text of any length completely

The UTF-8 output buffer of emv-decode had a fixed size such that longer
text was silently truncated, possibly within a UTF-8 character.
---
 tools/emv-decode.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index d6108ce..230fd2a 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -896,7 +896,8 @@ int main(int argc, char** argv)
 		case EMV_DECODE_ISO8859_13:
 		case EMV_DECODE_ISO8859_14:
 		case EMV_DECODE_ISO8859_15: {
-			char utf8[2048];
+			char* utf8;
+			size_t utf8_len;
 			unsigned int codepage;
 
 			codepage = emv_decode_mode - EMV_DECODE_ISO8859_1 + 1;
@@ -905,13 +906,23 @@ int main(int argc, char** argv)
 				break;
 			}
 
-			memset(utf8, 0, sizeof(utf8));
-			r = iso8859_to_utf8(codepage, data, data_len, utf8, sizeof(utf8));
+			// An ISO 8859 character requires at most 3 bytes in UTF-8
+			utf8_len = data_len * 3 + 1;
+			utf8 = malloc(utf8_len);
+			if (!utf8) {
+				fprintf(stderr, "Failed to allocate output buffer\n");
+				break;
+			}
+
+			memset(utf8, 0, utf8_len);
+			r = iso8859_to_utf8(codepage, data, data_len, utf8, utf8_len);
 			if (r && utf8[0]) { // Ignore empty strings
 				fprintf(stderr, "iso8859_to_utf8() failed; r=%d\n", r);
+				free(utf8);
 				break;
 			}
 			printf("%s\n", utf8);
+			free(utf8);
 
 			break;
 		}
-- 
2.43.0


From ae1c687e1b536559f41a9f6acf2febdba4ad1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 55/71] fix: reject R-TPDU of three bytes without leading INS
 byte

A corrupted procedure byte before the status bytes was silently ignored
when the R-TPDU has no response data, although it is rejected when it has.
---
 src/emv_ttl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 7db8367..c4087be 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -327,6 +327,15 @@ int emv_ttl_trx(
 				}
 		}
 
+		// For TPDU mode and a response without response data, any byte preceding
+		// the status bytes should also be the INS byte
+		if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU &&
+			rx_len == 3 &&
+			memcmp(rx_buf, &INS, 1) != 0
+		) {
+			return 10;
+		}
+
 		// For TPDU mode and a response that appears to contain response data
 		if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU &&
 			rx_len > 3
-- 
2.43.0


From 2b0ba5d3250fbc07c7defc8532bd9f84e42dbbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:27 +0000
Subject: [PATCH 56/71] fix: recognise PSE and PPSE names when describing tag
 84

The sense of the comparison was inverted such that any other name of
the same length was shown as text.
---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index e9e659f..5c58ba8 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -251,8 +251,8 @@ int emv_tlv_get_info(
 				// have been packed into TLV entries for this function to use.
 				return 0;
 			}
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
+			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0)
 			) {
 				if (value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
-- 
2.43.0


From 54f3d0c81374d8b49ca746dae1ad678aff648f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 57/71] fix: continue to print BER data after an undecodable
 OID

An object identifier with more components than supported ended the
output and was reported as a BER decoding error.
---
 tools/print_helpers.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 87d41b4..ecaaf7f 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -426,16 +426,13 @@ static int print_ber_buf_internal(
 				struct iso8825_oid_t oid;
 
 				r = iso8825_ber_oid_decode(tlv.value, tlv.length, &oid);
-				if (r) {
-					// Failed to decode OID
-					break;
+				if (r == 0) { // Otherwise the value bytes suffice
+					printf(" {");
+					for (unsigned int i = 0; i < oid.length; ++i) {
+						printf("%s%u", i ? " ": "", oid.value[i]);
+					}
+					printf("}");
 				}
-
-				printf(" {");
-				for (unsigned int i = 0; i < oid.length; ++i) {
-					printf("%s%u", i ? " ": "", oid.value[i]);
-				}
-				printf("}");
 			}
 
 			printf("\n");
-- 
2.43.0


From dda7b33a9c7f97f0b34a1dfe6e6a55caa4dc108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:59 +0000
Subject: [PATCH 58/71] fix: decode OIDs with multi-octet first subidentifier
 and reject malformed OIDs

---
 src/iso8825_ber.c | 53 ++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 43daf06..332cc03 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -304,35 +304,21 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 {
 	const uint8_t* buf = ptr;
 
-	memset(oid, 0, sizeof(*oid));
-
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
 
+	memset(oid, 0, sizeof(*oid));
+
 	if (len >= sizeof(oid->value)) {
 		// OID too long
 		return -2;
 	}
 
-	// See ISO 8825-1:2003, 8.19.4
-	if (buf[0] < 40) { // ITU-T
-		oid->value[0] = ASN1_OID_ITU_T;
-		oid->value[1] = buf[0];
-	} else if (buf[0] < 80) { // ISO
-		oid->value[0] = ASN1_OID_ISO;
-		oid->value[1] = buf[0] - 40;
-	} else { // joint-iso-itu-t
-		oid->value[0] = ASN1_OID_JOINT;
-		oid->value[1] = buf[0] - 80;
-	}
-	oid->length = 2;
-	++buf;
-	--len;
-
 	// See ISO 8825-1:2003, 8.19
 	while (len) {
 		uint32_t subid = 0;
+		bool last_octet = false;
 
 		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
 			// Too many subidentifiers
@@ -340,10 +326,15 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 		}
 
 		// Decode multibyte subidentifier
-		while (len) {
+		while (len && !last_octet) {
+			if (subid >> 25) {
+				// Subidentifier too large
+				return -4;
+			}
+
 			// Determine whether it is the last octet of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
-			bool last_octet = !(*buf & 0x80); // TODO: use define
+			last_octet = !(*buf & 0x80); // TODO: use define
 
 			// Extract the next 7 bits of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
@@ -351,9 +342,29 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 			subid |= *buf & 0x7f; // TODO: use define
 			++buf;
 			--len;
+		}
 
-			if (last_octet)
-				break;
+		if (!last_octet) {
+			// Incomplete subidentifier
+			return -5;
+		}
+
+		if (oid->length == 0) {
+			// First subidentifier represents first two object identifier
+			// components
+			// See ISO 8825-1:2003, 8.19.4
+			if (subid < 40) { // ITU-T
+				oid->value[0] = ASN1_OID_ITU_T;
+				oid->value[1] = subid;
+			} else if (subid < 80) { // ISO
+				oid->value[0] = ASN1_OID_ISO;
+				oid->value[1] = subid - 40;
+			} else { // joint-iso-itu-t
+				oid->value[0] = ASN1_OID_JOINT;
+				oid->value[1] = subid - 80;
+			}
+			oid->length = 2;
+			continue;
 		}
 
 		// Store subidentifier
-- 
2.43.0


From 771eaed4e2404cea81ae156663ef540696b1c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 59/71] fix: terminate empty string lists of ISO 7816
 descriptions

---
 src/iso7816_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 4448fa0..9f218cd 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,11 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// Ensure that an empty string list is NULL terminated
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From c321a856f6f5af636e12987ec9bb182ecab9cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 60/71] fix: do not write NULL termination beyond short buffer
 for numbers

---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 5c58ba8..980e117 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1611,18 +1611,18 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len < 2) {
+				// No space left for digit and NULL termination
+				*str = 0;
+				return -3;
+			}
+
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From 4063bdc98a85c8149e65e9325bb2150ccefdb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 61/71] fix: accept historical bytes without data objects when
 printing

---
 tools/print_helpers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index ecaaf7f..ed2ce7b 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -211,6 +211,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 		return;
 	}
 
+	if (!atr_info->historical_bytes_len) {
+		// No COMPACT-TLV data objects present
+		return;
+	}
+
 	r = iso7816_compact_tlv_itr_init(
 		atr_info->historical_bytes,
 		atr_info->historical_bytes_len,
-- 
2.43.0


From 42b31929d72dd619521b37081c3183b3f8a457fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 62/71] fix: do not interpret empty card service data

---
 tools/print_helpers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index ed2ce7b..1b3db8e 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -239,6 +239,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 
 		switch (tlv.tag) {
 			case ISO7816_COMPACT_TLV_CARD_SERVICE_DATA:
+				if (!tlv.length) {
+					// Empty field cannot be interpreted
+					r = -1;
+					break;
+				}
 				r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
 				break;
 
-- 
2.43.0


From c4c16e09b7fd4ec8601724e003e7dfe01b63d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 63/71] fix: show numbers of more than 32 bits with all of
 their digits

Format 'n' elements such as the authorised amount hold up to 12 digits, but
emv_format_n_get_string() converted them by way of a 32-bit integer that
silently wrapped. An amount of 010000000000 was shown as 1410065408. Convert
the digits directly instead.
---
 src/emv_strings.c | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 980e117..dc5cba8 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1574,15 +1574,46 @@ int emv_format_cn_get_string(const uint8_t* buf, size_t buf_len, char* str, size
 
 int emv_format_n_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
 {
-	int r;
-	uint32_t value;
+	bool found_first_digit = false;
 
-	r = emv_format_n_to_uint(buf, buf_len, &value);
-	if (r) {
-		return r;
+	if (!buf || !buf_len) {
+		return -1;
 	}
 
-	return emv_uint_to_str(value, str, str_len);
+	if (str_len < 2) {
+		// Minimum length for zero string
+		return -2;
+	}
+
+	// Extract two decimal digits per byte. The number of digits is not limited
+	// to what a 32-bit number can represent.
+	for (size_t i = 0; i < buf_len * 2; ++i) {
+		uint8_t digit;
+
+		digit = (i & 0x1) ? (buf[i / 2] & 0xf) : (buf[i / 2] >> 4);
+		if (digit > 9) {
+			// Invalid digit
+			return 1;
+		}
+
+		// Omit leading zeros, except for the last digit
+		if (digit != 0 || found_first_digit || i == buf_len * 2 - 1) {
+			if (str_len < 2) {
+				// No space left for digit and NULL termination
+				*str = 0;
+				return -3;
+			}
+
+			*str = '0' + digit;
+			++str;
+			--str_len;
+			found_first_digit = true;
+		}
+	}
+
+	*str = 0; // NULL terminate
+
+	return 0;
 }
 
 static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
-- 
2.43.0


From 8706b0c937b4341792565c9c2e9fc3f73e50f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:50 +0000
Subject: [PATCH 64/71] fix: show all digits of a selected file identifier of
 255 bytes

The hexadecimal file identifier was written with one byte less room than
its buffer has, such that the last digit of an identifier of the maximum
length was missing in the description of the SELECT command.
---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 9f218cd..c630936 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -143,7 +143,7 @@ static const char* iso7816_capdu_select_get_string(
 		for (size_t i = 0; i < apdu_case_4s->Lc; ++i) {
 			snprintf(
 				file_id_str + (i * 2),
-				sizeof(file_id_str) - 1 - (i * 2),
+				sizeof(file_id_str) - (i * 2),
 				"%02X",
 				apdu_case_4s->data[i]
 			);
-- 
2.43.0


From 3d27f628b3f0cd2db1a44a9d49330e2617ae448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 65/71] fix: ignore padding of one byte less than the AES block
 size

Invalid data is documented to be ignored as padding if it is less than the
cipher block size, but 15 bytes were not considered to be AES padding.
---
 tools/print_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 1b3db8e..e368dc2 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -455,7 +455,7 @@ static int print_ber_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
@@ -632,7 +632,7 @@ static int print_emv_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
-- 
2.43.0


From 0794a972711ac35299173b32cac974e58d0cfa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:22 +0000
Subject: [PATCH 66/71] fix: show Additional Terminal Capabilities completely

The list of a field 9F40 with most of its bits set is longer than the
1023 characters which emv-decode --addl-term-caps had room for, and was
silently cut.
---
 tools/emv-decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index 230fd2a..155997f 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -562,7 +562,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_ADDL_TERM_CAPS: {
-			char str[1024];
+			char str[2048];
 
 			if (data_len != 5) {
 				fprintf(stderr, "EMV Additional Terminal Capabilities (field 9F40) must be exactly 5 bytes\n");
-- 
2.43.0


From 6d1423641d32acb0a24537561af66c6164b93c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 67/71] fix: show every rule of a long CVM list

emv-decode --cvm-list accepts lists of up to 252 bytes, but had no room
for the text of more than about a dozen rules and silently left out the
others.
---
 tools/emv-decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index 155997f..0db42b8 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -580,7 +580,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_CVM_LIST: {
-			char str[2048];
+			char str[32768]; // Up to 121 rules of less than 256 characters
 
 			r = emv_cvm_list_get_string_list(data, data_len, str, sizeof(str));
 			if (r) {
-- 
2.43.0


From 7e8dd491d5bb4e7aa6b21ceb3729d99166eab430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 68/71] fix: upper cumulative offline amount limit of CCD card
 verification results

EMV 4.4 Book 3, Annex C9.3, Table CCD 10 defines bit 5 of byte 3 as Upper
Cumulative Offline Amount Limit Exceeded, but bit 6 was used for both the
lower and the upper limit.
---
 src/emv_fields.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_fields.h b/src/emv_fields.h
index 375121e..4f89a8a 100644
--- a/src/emv_fields.h
+++ b/src/emv_fields.h
@@ -407,7 +407,7 @@ enum emv_iad_format_t {
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x80) ///< Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x40) ///< Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded
-#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
+#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x10) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT1         (0x08) ///< Card Verification Results (CVR): Issuer-discretionary bit 1
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT2         (0x04) ///< Card Verification Results (CVR): Issuer-discretionary bit 2
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT3         (0x02) ///< Card Verification Results (CVR): Issuer-discretionary bit 3
-- 
2.43.0


From 0aab54031e0707e8259ce413b897fa8e82d03672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 69/71] fix: show Issuer Application Data completely

The list of the card verification results of a field 9F10 with many bits
set is longer than the 2047 characters which emv-decode
--issuer-app-data had room for, and was silently cut.
---
 tools/emv-decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/emv-decode.c b/tools/emv-decode.c
index 0db42b8..1b5cd95 100644
--- a/tools/emv-decode.c
+++ b/tools/emv-decode.c
@@ -647,7 +647,7 @@ int main(int argc, char** argv)
 		}
 
 		case EMV_DECODE_IAD: {
-			char str[2048];
+			char str[4096];
 
 			if (data_len > 32) {
 				fprintf(stderr, "EMV Issuer Application Data (field 9F10) may be up to 32 bytes\n");
-- 
2.43.0


From 78effcbf86edd898d047003715192e42afc98e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 70/71] fix: name the Card Status Update when offline counters
 are set to their limits

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index dc5cba8..b582306 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5874,7 +5874,7 @@ static int emv_csu_append_string_list(
 		emv_str_list_add(itr, "Card Status Update (CSU): Do Not Update Offline Counters");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_UPPER_OFFLINE_LIMIT) {
-		emv_str_list_add(itr, "ard Status Update (CSU): Set Offline Counters to Upper Offline Limits");
+		emv_str_list_add(itr, "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_RESET) {
 		emv_str_list_add(itr, "Card Status Update (CSU): Reset Offline Counters to Zero");
-- 
2.43.0


From 258f4b2dc9c8586ee61ca89f7fe659dee8a9ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:04 +0000
Subject: [PATCH 71/71] fix: recognise JCB application identifiers

---
 src/emv_fields.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..dcaa570 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,8 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		// Individual JCB card products are not reflected here
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0

