From a85b4a76215e1a485676c8db6036478874b8ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 01/22] fix: reject offer strings with only whitespace next to
 a join

A "+" must be surrounded by bech32 characters, but one at the start or end of
the string was accepted when whitespace followed it.
---
 offers/bech32.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..ce09112 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -120,18 +120,18 @@ func stripOffer(offer string) (string, error) {
 	parts := strings.Split(offer, "+")
 
 	for i, part := range parts {
-		// If any of our parts are empty, we either had consecutive or
-		// starting / ending "+" in our string.
-		if part == "" {
-			return "", ErrIncorrectSplit
-		}
-
 		// We should allow whitespace following a "+" character. Trim
 		// all whitespace so that we can check that except for spaces,
 		// all other characters are bech32. We replace the entry in our
 		// slice to strip out these paces.
 		parts[i] = strings.TrimSpace(part)
 
+		// If any of our parts are empty, we either had consecutive or
+		// starting / ending "+" in our string.
+		if parts[i] == "" {
+			return "", ErrIncorrectSplit
+		}
+
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From 98dc8954e1342dca844bcda890da22ad115ef82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 02/22] fix: build the merkle tree level by level

The queue style combination of branches does not produce the tree that
BOLT 12 describes when the number of records is, for example, 5 or 7.
---
 lnwire/bolt12_merkle.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..dce4312 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -125,20 +125,27 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 	return lntypes.MakeHash(hash[:])
 }
 
-// CalculateRoot combines a set of branches into a merkle root.
+// CalculateRoot combines a set of branches into a merkle root. Branches are
+// combined in pairs one level at a time. If a level has an odd number of nodes,
+// its last node is carried over to the next level unchanged.
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
-	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+	for len(branches) > 1 {
+		level := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for i := 0; i+1 < len(branches); i += 2 {
+			left, right := orderNodes(branches[i], branches[i+1])
+
+			level = append(level, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+		}
+
+		if len(branches)%2 != 0 {
+			level = append(level, branches[len(branches)-1])
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		branches = level
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From a031de095de4caae6e61a5920f73dcf3a2e8a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 03/22] fix: decode truncated integers with the value zero

Zero is encoded as an empty value, so an offer expiring at the unix epoch
could not be decoded from its own encoding.
---
 lnwire/tu64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/tu64.go b/lnwire/tu64.go
index 2e085dc..bf46219 100644
--- a/lnwire/tu64.go
+++ b/lnwire/tu64.go
@@ -23,7 +23,7 @@ func encodeTU64(w io.Writer, val interface{}, buf *[8]byte) error {
 // Note: lnd doesn't have this functionality on its own yet (only in mpp decode)
 // so it is added here.
 func decodeTU64(r io.Reader, val interface{}, buf *[8]byte, l uint64) error {
-	if v, ok := val.(*uint64); ok && 1 <= l && l <= 8 {
+	if v, ok := val.(*uint64); ok && l <= 8 {
 		if err := tlv.DTUint64(r, v, buf, l); err != nil {
 			return err
 		}
-- 
2.43.0


From b4b643a1a7f589e8fef53b938ee20d392dc3ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 04/22] fix: read and write bolt 12 features without a length
 prefix

The features of an offer, request or invoice are exactly the bytes of their
record. The two byte length prefix of peer messages does not belong there, and
whatever followed the prefixed bytes was ignored.
---
 lnwire/bolt12_shared.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..cb72250 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -2,13 +2,23 @@ package lnwire
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
+	"math"
 
 	"github.com/lightningnetwork/lnd/lntypes"
 	"github.com/lightningnetwork/lnd/lnwire"
 	"github.com/lightningnetwork/lnd/tlv"
 )
 
+// maxFeaturesLen is the longest feature vector that we can represent, because
+// feature bits are 16 bit integers.
+const maxFeaturesLen = (math.MaxUint16 + 1) / 8
+
+// ErrFeaturesTooLong is returned when a feature vector contains bits that we
+// cannot represent.
+var ErrFeaturesTooLong = errors.New("feature vector too long")
+
 // encodeFetauresRecord creates a tlv record with the type provided, encoding
 // the feature vector provided as a byte vector. If the vector provided is nil
 // or empty the record returned will be nil.
@@ -25,7 +35,8 @@ func encodeFetauresRecord(recordType tlv.Type,
 
 	w := new(bytes.Buffer)
 
-	if err := features.Encode(w); err != nil {
+	// The length of our features is already set by our record's length.
+	if err := features.EncodeBase256(w); err != nil {
 		return nil, fmt.Errorf("encode features: %w", err)
 	}
 
@@ -45,7 +56,14 @@ func decodeFeaturesRecord(decodedFeatures []byte,
 
 	// If we decoded a value for our feature vector, decode it.
 	if found {
-		err := rawFeatures.Decode(bytes.NewReader(decodedFeatures))
+		if len(decodedFeatures) > maxFeaturesLen {
+			return nil, fmt.Errorf("%w: %v bytes",
+				ErrFeaturesTooLong, len(decodedFeatures))
+		}
+
+		err := rawFeatures.DecodeBase256(
+			bytes.NewReader(decodedFeatures), len(decodedFeatures),
+		)
 		if err != nil {
 			return nil, fmt.Errorf("raw features decode: %w", err)
 		}
-- 
2.43.0


From 077f3b95c5d46704a78ee4899781969b1c07833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 05/22] fix: reject invoices with a relative expiry that
 overflows

A relative expiry of more than about 292 years wrapped around to an arbitrary,
possibly negative, duration.
---
 lnwire/bolt12_invoice.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..98c6eb1 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -64,6 +65,10 @@ const (
 
 	// invSigType is a record for a signature over the invoice.
 	invSigType tlv.Type = 240
+
+	// maxRelativeExpiry is the longest relative expiry in seconds that we
+	// can represent as a duration.
+	maxRelativeExpiry = uint64(math.MaxInt64 / time.Second)
 )
 
 var (
@@ -75,6 +80,10 @@ var (
 	// payment hash tlv.
 	ErrNoPaymentHash = errors.New("invoice requires payment hash")
 
+	// ErrRelativeExpiryTooLong is returned when an invoice's relative
+	// expiry is longer than we can represent.
+	ErrRelativeExpiryTooLong = errors.New("relative expiry too long")
+
 	// ErrNoAmount is returned when an invoice doesn't have an amount tlv.
 	ErrNoAmount = errors.New("invoice requires amount")
 )
@@ -391,6 +400,11 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 	}
 
 	if _, ok := tlvMap[invRelativeExpiryType]; ok {
+		if relativeExpiry > maxRelativeExpiry {
+			return nil, fmt.Errorf("%w: %v seconds",
+				ErrRelativeExpiryTooLong, relativeExpiry)
+		}
+
 		i.RelativeExpiry = time.Second * time.Duration(relativeExpiry)
 	}
 
-- 
2.43.0


From 03920f699b442ede3fab49423bccff27e81e380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 06/22] fix: calculate the merkle root over the records
 received

The root of a decoded message was calculated over a new encoding of its known
fields. Records that we do not re-encode identically, such as those with a zero
or empty value and empty unknown records, were left out, so that valid
signatures were rejected and such records could be changed unnoticed.
---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_merkle.go          | 21 ++++++++-------------
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 27 ++++++++++++++-------------
 5 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index 98c6eb1..6260c36 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -412,7 +412,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..3240905 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index dce4312..fbfe35a 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -288,26 +288,21 @@ func encodeTLV(record tlv.Record, b [8]byte) ([]byte, error) {
 	return w.Bytes(), nil
 }
 
-// unknownRecordsFromParsed returns a set of tlv records from the set of parsed
-// types from a tlv stream. This function is used to produce records for tlv
-// types that we don't recognize (eg, odd records that are unknown to our code)
-// so that they can be included in merkle root calculation.
-func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
-	var records []tlv.Record
+// rawRecordsFromParsed returns a set of tlv records for a tlv stream that has
+// been parsed without any known types, each holding the bytes that were read
+// for its type.
+func rawRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
+	records := make([]tlv.Record, 0, len(parsedTypes))
 
 	for tlvType, tlvBytes := range parsedTypes {
-		// If the value of a parsed type is not included in our map, it
-		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
-			continue
-		}
+		value := tlvBytes
 
 		// Create a record that just writes whatever bytes we have for
 		// the TLV value. Any encoding specifics will be included in
 		// these bytes, because we've just read them straight out of the
 		// tlv stream.
 		encode := func(w io.Writer, _ interface{}, _ *[8]byte) error {
-			_, err := w.Write(tlvBytes)
+			_, err := w.Write(value)
 			return err
 		}
 
@@ -315,7 +310,7 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 		// include a decode function because we don't need one to
 		// calculate our merkle root.
 		record := tlv.MakeStaticRecord(
-			tlvType, tlvBytes, uint64(len(tlvBytes)), encode, nil,
+			tlvType, value, uint64(len(value)), encode, nil,
 		)
 
 		records = append(records, record)
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index cb72250..578fbcf 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -78,22 +78,23 @@ type tlvTree interface {
 	records() ([]tlv.Record, error)
 }
 
-// decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// decodeMerkleRoot produces a tlv merkle tree root for the tlv stream provided.
+// The sender's root covers every record that they sent, so we use the records
+// as they appear in the stream, regardless of whether we understand them.
+func decodeMerkleRoot(stream []byte) (lntypes.Hash, error) {
+	// A stream without any known records will parse every record into its
+	// raw bytes.
+	rawStream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("raw stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := rawStream.DecodeWithParsedTypes(bytes.NewReader(stream))
+	if err != nil {
+		return lntypes.Hash{}, fmt.Errorf("raw decode: %w", err)
+	}
+
+	root, err := MerkleRoot(rawRecordsFromParsed(tlvMap))
 	if err != nil {
 		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
-- 
2.43.0


From 4c08480cb850e8e420a768ce3fc06cbe6876a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 07/22] fix: allow requests for offers that set a single
 quantity bound

An offer may set only a minimum or only a maximum quantity. No quantity was
accepted for such offers with a minimum, and only zero for those with a
maximum.
---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 3240905..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From 6929d57cedb2fc6a2810800d379c33d857665cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 08/22] fix: deliver final payloads without a value

Marker payloads may be empty, but they were dropped when decoding.
---
 lnwire/onion_msg_payload.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..c8244e3 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry, an empty one is
+		// an unrecognized tlv without a value).
+		if tlvBytes == nil {
 			continue
 		}
 
@@ -184,8 +185,8 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 
 	// If we read out an invoice tlv sub-namespace, add it to our set of
 	// final payloads. This value won't have been added in the loop above,
-	// because we recognized the TLV so len(tlvMap[invoiceType].tlvBytes)
-	// will be zero (thus, skipped above).
+	// because we recognized the TLV so tlvMap[invoiceType] will be nil
+	// (thus, skipped above).
 	if _, ok := tlvMap[InvoiceNamespaceType]; ok {
 		onionPayload.FinalHopPayloads = append(
 			onionPayload.FinalHopPayloads, invoicePayload,
-- 
2.43.0


From 61ef53dd1956dc916660c40eef329892c05b4f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 09/22] fix: read reply paths from exactly their own record

The hops of a reply path were read without regard to the length of its record,
so bytes of following records could be taken for hops and left over bytes of
the record for following records.
---
 lnwire/onion_msg_payload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index c8244e3..41d540c 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -41,6 +41,10 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrReplyPathExtra is returned when a reply path record contains more
+	// bytes than its hops account for.
+	ErrReplyPathExtra = errors.New("unexpected bytes after reply path")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -314,6 +318,10 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Our hops are not length prefixed as a whole, so limit our reads
+		// to the record that we are decoding.
+		r := &io.LimitedReader{R: r, N: int64(l)}
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -342,6 +350,10 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if r.N != 0 {
+			return fmt.Errorf("%w: %v bytes", ErrReplyPathExtra, r.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From dc853ac776158c2301bc5cc26cf2ad3f27899fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 10/22] fix: do not truncate the lengths of reply paths

More hops than fit the one byte hop count, or more hop data than fits its two
byte length, were written with a wrapped count or length.
---
 lnwire/onion_msg_payload.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 41d540c..0c26d99 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -42,6 +43,14 @@ var (
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
 
+	// ErrTooManyHops is returned when a reply path has more hops than its
+	// hop count can express.
+	ErrTooManyHops = errors.New("too many hops in reply path")
+
+	// ErrHopDataTooLong is returned when the encrypted data of a reply path
+	// hop is longer than its length can express.
+	ErrHopDataTooLong = errors.New("encrypted data of hop too long")
+
 	// ErrReplyPathExtra is returned when a reply path record contains more
 	// bytes than its hops account for.
 	ErrReplyPathExtra = errors.New("unexpected bytes after reply path")
@@ -292,11 +301,16 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
-		hopCount := uint8(len(p.Hops))
-		if hopCount == 0 {
+		if len(p.Hops) == 0 {
 			return ErrNoHops
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v", ErrTooManyHops, len(p.Hops))
+		}
+
+		hopCount := uint8(len(p.Hops))
+
 		if err := tlv.EUint8(w, &hopCount, buf); err != nil {
 			return fmt.Errorf("encode hop count: %w", err)
 		}
@@ -383,6 +397,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("%w: %v bytes", ErrHopDataTooLong,
+				len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From 00713f79ca84479cd683238607a2803e5112aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 11/22] fix: do not truncate the length of an onion

An onion that does not fit its two byte length was written with a wrapped
length.
---
 lnwire/onion_message.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..048ec89 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -2,8 +2,10 @@ package lnwire
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -12,6 +14,10 @@ import (
 // OnionMessageType is the protocol message type used for onion messages in lnd.
 const OnionMessageType = 513
 
+// ErrOnionTooLong is returned when an onion is longer than its length can
+// express.
+var ErrOnionTooLong = errors.New("onion too long")
+
 // OnionMessage represents an onion message used to communicate with peers.
 type OnionMessage struct {
 	// BlindingPoint is the route blinding ephemeral pubkey to be used for
@@ -76,6 +82,10 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("%w: %v bytes", ErrOnionTooLong, onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
-- 
2.43.0


From f33261d12a8f75e7a97aaeb61db64e7417edf982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 12/22] fix: send reply path and payloads when directly
 connected to a blinded path

---
 routes/blinded.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..8f3ecb0 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -693,13 +693,21 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
+	hopCount := len(req.blindedDestination.Hops)
+
 	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// If we're on the last hop, add our optional final payload
+		// and reply path.
+		if i == hopCount-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From e7eb69034fd7b8087efe9cae5988613a00581eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 13/22] fix: refuse routes with more hops than an onion can
 hold

---
 routes/blinded.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index 8f3ecb0..4b7fd35 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than an onion
+	// can hold.
+	ErrTooManyHops = errors.New("too many hops for onion")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,11 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if ourHopCount+extraHopCount > len(sphinxPath) {
+		return nil, fmt.Errorf("%w: %v", ErrTooManyHops,
+			ourHopCount+extraHopCount)
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -694,6 +703,9 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
 	hopCount := len(req.blindedDestination.Hops)
+	if hopCount > len(sphinxPath) {
+		return nil, fmt.Errorf("%w: %v", ErrTooManyHops, hopCount)
+	}
 
 	for i, hop := range req.blindedDestination.Hops {
 		payload := &lnwire.OnionMessagePayload{
-- 
2.43.0


From 2c8c2a6356729fcf9eb3458d63bac8e8fa12d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 14/22] fix: refuse reply paths without hops as invalid
 arguments

A send request whose reply path has no hops passed request validation and
only failed when the onion message was encoded, after lnd had been queried
for a route or connected to the peer, and was reported as an internal error.
---
 rpcserver/impl_sendonionmessage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rpcserver/impl_sendonionmessage.go b/rpcserver/impl_sendonionmessage.go
index 0187be1..03018a0 100644
--- a/rpcserver/impl_sendonionmessage.go
+++ b/rpcserver/impl_sendonionmessage.go
@@ -101,6 +101,14 @@ func parseSendOnionMessageRequest(req *offersrpc.SendOnionMessageRequest) (
 		return nil, err
 	}
 
+	// A reply path without any hops can't be encoded in an onion message,
+	// so we fail the request before we try to send it.
+	if replyPath != nil && len(replyPath.Hops) == 0 {
+		return nil, status.Errorf(
+			codes.InvalidArgument, "reply path: hops required",
+		)
+	}
+
 	finalHopPayloads := make(
 		[]*lnwire.FinalHopPayload, 0, len(req.FinalPayloads),
 	)
-- 
2.43.0


From 1cdf115a7715676a2fce97ed0226f9efeff73f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 15/22] fix: report offer features without length prefix

DecodeOffer returned the feature vector in its wire encoding with a two
byte length prefix, so that it differed from the feature bytes of the offer
and was not empty for an offer that has no features.
---
 rpcserver/impl_decodeoffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpcserver/impl_decodeoffer.go b/rpcserver/impl_decodeoffer.go
index f6a412c..9e06b45 100644
--- a/rpcserver/impl_decodeoffer.go
+++ b/rpcserver/impl_decodeoffer.go
@@ -69,7 +69,9 @@ func composeDecodeOfferResponse(offer *lnwire.Offer) (
 	if offer.Features != nil {
 		buf := new(bytes.Buffer)
 
-		if err := offer.Features.Encode(buf); err != nil {
+		// The bytes of the feature vector are not prefixed with their
+		// length, and are empty if there are no features set.
+		if err := offer.Features.EncodeBase256(buf); err != nil {
 			// We really shouldn't run into issues encoding our
 			// feature vector, so we return an internal error if
 			// something goes wrong here.
-- 
2.43.0


From 73726d994139b716f59a0b8a09de9ab2e211b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 16/22] fix: release blocked handler before deregistering a
 subscription

---
 rpcserver/impl_subscribe_onion_payload.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..81f0032 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,12 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Wrap our context so that our handler is released when we exit, even
+	// if the client's context is still active. If we do not do this, a
+	// handler that is blocked delivering a message would prevent us from
+	// deregistering it on exit.
+	ctx, cancel := context.WithCancel(ctx)
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -89,6 +95,7 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	// Register our handler with the messenger, and deregister it on
 	// exit.
 	if err := messenger.RegisterHandler(tlvType, handler); err != nil {
+		cancel()
 		return status.Errorf(
 			codes.Unavailable, "could not register "+
 				"subscription: %v", err,
@@ -96,6 +103,8 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From c3f90e92e8e57a9a4b6b8cf6902408c9f8051285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:32 +0000
Subject: [PATCH 17/22] fix: do not overflow number of connection attempts to
 lnd

---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From fc795bb9bb9af780f2aa19451149fef63fdfd762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 18/22] fix: check minimum lnd build tags in config validation

---
 config.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/config.go b/config.go
index 4b775a2..a802079 100644
--- a/config.go
+++ b/config.go
@@ -102,6 +102,19 @@ func (c *Config) Validate() error {
 		return err
 	}
 
+	// The version check above does not cover build tags.
+	tags := make(map[string]struct{})
+	for _, tag := range c.LndClientCfg.CheckVersion.BuildTags {
+		tags[tag] = struct{}{}
+	}
+
+	for _, tag := range MinimumLNDVersion.BuildTags {
+		if _, ok := tags[tag]; !ok {
+			return fmt.Errorf("lnd check version must require "+
+				"build tag: %v", tag)
+		}
+	}
+
 	if c.LNDWait < 0 {
 		return fmt.Errorf("wait: %v must be > 0", c.LNDWait)
 	}
-- 
2.43.0


From e45eec179ae1b4f28b1b96f1b39887d69f0197a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:06 +0000
Subject: [PATCH 19/22] fix: don't process onion messages when stopped before
 the messenger runs

---
 onionmsg/messenger.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..7dcb89c 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -589,6 +589,16 @@ func (m *Messenger) manageOnionMessages(ctx context.Context) error {
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 
+	// If we were stopped before we got here, exit without subscribing.
+	// Stop has possibly returned already, so we can't rely on the select
+	// below (which may pick a message over our quit signal).
+	select {
+	case <-m.quit:
+		return ErrShuttingDown
+
+	default:
+	}
+
 	msgChan, errChan, err := m.lnd.SubscribeCustomMessages(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From 2ba30836efdcbf41b99725c4c225be00d81a9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:01 +0000
Subject: [PATCH 20/22] fix: don't leave the rpc server's messenger running
 when stopped during start

---
 rpcserver/server.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/rpcserver/server.go b/rpcserver/server.go
index 574335e..44135a6 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/carlakc/boltnd/offersrpc"
@@ -39,6 +40,10 @@ type Server struct {
 	// Start() has been called.
 	onionMsgr onionmsg.OnionMessenger
 
+	// startMtx orders the startup of our messenger with Stop, so that we
+	// never leave a messenger running that Stop did not see.
+	startMtx sync.Mutex
+
 	// routeGenerator produces blinded paths to our node.
 	routeGenerator routes.Generator
 
@@ -87,7 +92,18 @@ func (s *Server) Start(lnd *lndclient.LndServices) error {
 		lnd.Client, nodeKeyECDH.PubKey(),
 	)
 
-	// Finally setup an onion messenger using the onion router.
+	// Finally setup an onion messenger using the onion router, unless we
+	// have been stopped in the meantime.
+	s.startMtx.Lock()
+	defer s.startMtx.Unlock()
+
+	select {
+	case <-s.quit:
+		return ErrShuttingDown
+
+	default:
+	}
+
 	s.onionMsgr = onionmsg.NewOnionMessenger(
 		lnd.ChainParams, lnd.Client, nodeKeyECDH, s.requestShutdown,
 	)
@@ -114,8 +130,12 @@ func (s *Server) Stop() error {
 	close(s.quit)
 
 	// Shut down onion messenger if non-nil.
-	if s.onionMsgr != nil {
-		if err := s.onionMsgr.Stop(); err != nil {
+	s.startMtx.Lock()
+	onionMsgr := s.onionMsgr
+	s.startMtx.Unlock()
+
+	if onionMsgr != nil {
+		if err := onionMsgr.Stop(); err != nil {
 			return fmt.Errorf("could not stop onion messenger: %w",
 				err)
 		}
-- 
2.43.0


From 526e2bfad15d5d03aa4f5419106efd9b0619348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:00 +0000
Subject: [PATCH 21/22] fix: close the lnd connection when stopped while
 connecting

---
 boltnd.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index d25c860..838f2ec 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -22,7 +23,10 @@ type Boltnd struct {
 	started int32 // to be used atomically
 	stopped int32 // to be used atomically
 
+	// lnd is our connection to lnd, nil until we have connected to it. It
+	// is handed over from Start to Stop under lndMtx.
 	lnd       *lndclient.GrpcLndServices
+	lndMtx    sync.Mutex
 	rpcServer *rpcserver.Server
 
 	cfg *Config
@@ -70,11 +74,14 @@ func (b *Boltnd) Start() error {
 
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
-	var connErr error
+	var (
+		lnd     *lndclient.GrpcLndServices
+		connErr error
+	)
 	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
-		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
+		lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
 		if connErr != nil {
 			log.Errorf("error starting lndclient: %w (attempt: %v)",
 				connErr, i)
@@ -93,7 +100,19 @@ func (b *Boltnd) Start() error {
 		return fmt.Errorf("could not connect to lnd: %w", connErr)
 	}
 
-	if err := b.rpcServer.Start(&b.lnd.LndServices); err != nil {
+	// Leave our connection for Stop to close. If we were stopped while we
+	// were busy connecting, we need to close it ourselves.
+	b.lndMtx.Lock()
+	if atomic.LoadInt32(&b.stopped) == 1 {
+		b.lndMtx.Unlock()
+		lnd.Close()
+
+		return errors.New("boltnd stopped during startup")
+	}
+	b.lnd = lnd
+	b.lndMtx.Unlock()
+
+	if err := b.rpcServer.Start(&lnd.LndServices); err != nil {
 		return fmt.Errorf("error starting rpcserver: %v", err)
 	}
 
@@ -112,8 +131,12 @@ func (b *Boltnd) Stop() error {
 		return fmt.Errorf("could not stop rpcserver: %v", err)
 	}
 
-	if b.lnd != nil {
-		b.lnd.Close()
+	b.lndMtx.Lock()
+	lnd := b.lnd
+	b.lndMtx.Unlock()
+
+	if lnd != nil {
+		lnd.Close()
 	}
 
 	return nil
-- 
2.43.0


From 6e93d0c2962fd28b51eecb27bdbe85be0c02b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:55 +0000
Subject: [PATCH 22/22] fix: leave the hops of a blinded route request as they
 are

---
 routes/blinded.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index 4b7fd35..064fc9f 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -399,6 +399,10 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 	// the message to.
 	firstNode := req.hops[0]
 
+	// Take the hops that we'll blind from the request, which we leave as it
+	// is so that it can be used again.
+	clearHops := req.hops
+
 	// We don't actually want to blind the introduction node (because we
 	// already have its blinded pubkey + encrypted data blob from the reply
 	// path). Here, we sanity check that the introduction node is indeed the
@@ -407,8 +411,8 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 		// Trim our introduction node off of the set of hops to be
 		// blinded (we've already checked in validation that this is
 		// indeed the final hop).
-		hopCount := len(req.hops)
-		req.hops = req.hops[:hopCount-1]
+		hopCount := len(clearHops)
+		clearHops = clearHops[:hopCount-1]
 
 		// Once we've trimmed our introduction node, we may have no
 		// hops left if we were directly connected to the introduction
@@ -416,7 +420,7 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 		// that node). In this edge case, we can just send our onion
 		// message to the blinded path provided, since we're not
 		// pre-pending any other hops to it.
-		if len(req.hops) == 0 {
+		if len(clearHops) == 0 {
 			return req.directToBlinded(req)
 		}
 	}
@@ -424,7 +428,7 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 	// Create a set of hops and corresponding blobs to be encrypted which
 	// form the route for our blinded path.
 	hops, err := createPathToBlind(
-		req.hops, req.blindedStart(), req.encodeBlindedData,
+		clearHops, req.blindedStart(), req.encodeBlindedData,
 	)
 	if err != nil {
 		return nil, fmt.Errorf("path to blind: %w", err)
-- 
2.43.0

