From 7d119e0f46837a527fb566baccbcff1951fbf02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 01/71] fix: reject malformed identifiers in messages and
 offers instead of crashing or decoding to nil

---
 common/pkg/cid/cid.go                             | 14 +++++++++-----
 common/pkg/cidoffer/cidoffer.go                   | 11 +++++++++--
 common/pkg/cidoffer/subcidoffer.go                | 10 ++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       | 14 +++++++++-----
 44 files changed, 247 insertions(+), 63 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..4bf0104 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -134,12 +134,16 @@ func MapCIDToString(cids []ContentID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+// MapStringToCID returns a new slice of ContentIDs parsed from their hex string values,
+// or an error if any of the strings is not a valid ContentID
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
-		results[i] = *contentID
+		id, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
+		results[i] = *id
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..75c744f 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,16 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	cids, err := cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids = cids
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..60735fb 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..e000d43 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, err
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..d258051 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -178,12 +178,16 @@ func MapNodeIDToString(cids []NodeID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+// MapStringToNodeID returns a new slice of NodeIDs parsed from their hex string values,
+// or an error if any of the strings is not a valid NodeID
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
-		results[i] = *nodeID
+		id, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
+		results[i] = *id
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 7fe65bfea060b8ec3bc43f70033c39019002ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 02/71] fix: refuse empty keys, out of range private keys and
 truncated signatures instead of crashing

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 11 +++++++++++
 common/pkg/fcrcrypto/msg_signing.go       |  7 +++++++
 common/pkg/fcrcrypto/secp256k1.go         |  7 +++++++
 3 files changed, 25 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..f455e2d 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -63,6 +63,10 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) < lengthOfSigAlgInBytes {
+		return nil, fmt.Errorf("encoded key is empty")
+	}
+
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
@@ -89,6 +93,9 @@ func decodeSecP256K1PrivateKey(keyBytes []byte) (*KeyPair, error) {
 	if len(key.pKey) != secp256k1PrivateKeyBytes {
 		return nil, fmt.Errorf("incorrect secp256k1 private key length: %d", len(key.pKey))
 	}
+	if !secp256k1ValidPrivateKey(key.pKey) {
+		return nil, fmt.Errorf("secp256k1 private key is out of range")
+	}
 	return &key, nil
 }
 
@@ -112,6 +119,10 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) < lengthOfSigAlgInBytes {
+		return nil, fmt.Errorf("encoded key is empty")
+	}
+
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..fd3251a 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,13 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) == 0 {
+		// No signature, hence no key version.
+		return DecodeKeyVersion(0), nil
+	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to contain a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
diff --git a/common/pkg/fcrcrypto/secp256k1.go b/common/pkg/fcrcrypto/secp256k1.go
index 66fcc68..53df21d 100644
--- a/common/pkg/fcrcrypto/secp256k1.go
+++ b/common/pkg/fcrcrypto/secp256k1.go
@@ -20,6 +20,7 @@ import (
 	"crypto/ecdsa"
 	"crypto/elliptic"
 	"io"
+	"math/big"
 
 	"github.com/ipsn/go-secp256k1"
 )
@@ -38,6 +39,12 @@ const secp256k1PrivateKeyBytes = 32
 // PublicKeyBytes is the size of a serialized public key.
 const secp256k1PublicKeyBytes = 65
 
+// secp256k1ValidPrivateKey returns true if the serialized private key is in the range [1, N-1].
+func secp256k1ValidPrivateKey(sk []byte) bool {
+	d := new(big.Int).SetBytes(sk)
+	return d.Sign() > 0 && d.Cmp(secp256k1.S256().Params().N) < 0
+}
+
 // PublicKey returns the public key for this private key.
 func secp256k1PublicKey(sk []byte) []byte {
 	x, y := secp256k1.S256().ScalarBaseMult(sk)
-- 
2.43.0


From 0077d453945c00b7b03d95412687a6161ef19799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 03/71] fix: make the PRNG safe for concurrent use and keep it
 off the caller's security domain buffer

---
 common/pkg/fcrcrypto/prng.go         | 10 +++++++++-
 common/pkg/fcrcrypto/prng_pool.go    | 11 +++++++++++
 common/pkg/fcrcrypto/prng_private.go |  4 ++--
 common/pkg/fcrcrypto/prng_public.go  |  2 +-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 1f40490..bf9dc11 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"math/big"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/davidlazar/go-crypto/drbg"
@@ -46,6 +47,7 @@ type Random interface {
 
 // RandomImpl holds the underlying DRBG and the PRF state.
 type randomImpl struct {
+	lock       sync.Mutex // guards all fields below
 	drbg       *drbg.DRBG
 	prfHasher  hash.Hash
 	prfState   []byte
@@ -56,7 +58,7 @@ type randomImpl struct {
 // personalisation string, so identical instances on identical hardware should have
 // differently seeded PRNGs.
 func NewPRNG(securityDomain []byte) Random {
-	personalizationString := securityDomain
+	personalizationString := append([]byte{}, securityDomain...)
 	personalizationString = append(personalizationString, getMACAddr()...)
 	personalizationString = append(personalizationString, nanotime()...)
 
@@ -71,6 +73,9 @@ func NewPRNG(securityDomain []byte) Random {
 
 // ReadBytes reads random values into b
 func (r *randomImpl) ReadBytes(b []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	lengthPerIteration := len(r.prfState)
 	lenOutput := len(b)
 
@@ -115,6 +120,9 @@ func (r *randomImpl) Read(b []byte) (n int, err error) {
 
 // Reseed adds seed material to the PRNG.
 func (r *randomImpl) Reseed(seed []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	r.drbg.Reseed(seed)
 
 	// Combine the current state of the PRF and the seed.
diff --git a/common/pkg/fcrcrypto/prng_pool.go b/common/pkg/fcrcrypto/prng_pool.go
index 5ac9f24..b0f50f0 100644
--- a/common/pkg/fcrcrypto/prng_pool.go
+++ b/common/pkg/fcrcrypto/prng_pool.go
@@ -15,8 +15,17 @@ package fcrcrypto
  * SPDX-License-Identifier: Apache-2.0
  */
 
+import "sync"
+
 // Array of PRNGs that will be reseeded by the global quick reseed.
 var prngPool []Random
+var prngPoolLock sync.RWMutex
+
+func addToPRNGPool(prng Random) {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
+	prngPool = append(prngPool, prng)
+}
 
 // PRNGEntropyKick is called when an application event occurs that an attacker
 // on a computer on the network can not observe. For example, when a message
@@ -24,6 +33,8 @@ var prngPool []Random
 // or even micro second when a message is serviced. However, they are unlikely
 // to know the timing down to the nearest nano second.
 func PRNGEntropyKick() {
+	prngPoolLock.RLock()
+	defer prngPoolLock.RUnlock()
 	for _, prng := range prngPool {
 		prng.QuickReseedKick()
 	}
diff --git a/common/pkg/fcrcrypto/prng_private.go b/common/pkg/fcrcrypto/prng_private.go
index 2e2cb42..83e14be 100644
--- a/common/pkg/fcrcrypto/prng_private.go
+++ b/common/pkg/fcrcrypto/prng_private.go
@@ -39,7 +39,7 @@ var doOnce1 sync.Once
 func GetPrivatePRNG() Random {
 	doOnce1.Do(func() {
 		privatePRNG = NewPRNG([]byte("private"))
-		prngPool = append(prngPool, privatePRNG)
+		addToPRNGPool(privatePRNG)
 	})
 	return privatePRNG
 }
@@ -49,6 +49,6 @@ func GetPrivatePRNG() Random {
 // guarentee security domain separation.
 func NewPrivatePRNG(securityDomain []byte) Random {
 	aPRNG := NewPRNG(securityDomain)
-	prngPool = append(prngPool, aPRNG)
+	addToPRNGPool(aPRNG)
 	return aPRNG
 }
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index d1d265c..1b28871 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -36,7 +36,7 @@ var doOnce sync.Once
 func GetPublicPRNG() Random {
 	doOnce.Do(func() {
 		publicPRNG = NewPRNG([]byte("public"))
-		prngPool = append(prngPool, publicPRNG)
+		addToPRNGPool(publicPRNG)
 	})
 	return publicPRNG
 }
-- 
2.43.0


From 05f686f1ecc6a893c9fd46eb78ca3b0860141035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 04/71] fix: reject merkle proofs with fewer directions than
 path elements instead of crashing

---
 common/pkg/fcrmerkletree/proof.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..499ea80 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -37,12 +37,17 @@ type FCRMerkleProof struct {
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
 	currentHash, _ := content.CalculateHash()
+	if len(mp.path) != len(mp.index) {
+		return false
+	}
 	for i, path := range mp.path {
 		hashFunc := sha256.New()
 		if mp.index[i] == 1 {
-			hashFunc.Write(append(currentHash, path...))
+			hashFunc.Write(currentHash)
+			hashFunc.Write(path)
 		} else {
-			hashFunc.Write(append(path, currentHash...))
+			hashFunc.Write(path)
+			hashFunc.Write(currentHash)
 		}
 		currentHash = hashFunc.Sum(nil)
 	}
@@ -114,6 +119,9 @@ func (mp *FCRMerkleProof) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(path) != len(index) {
+		return fmt.Errorf("FCRMerkleProof: Path and index have different sizes")
+	}
 	mp.path = path
 	mp.index = index
 	return nil
-- 
2.43.0


From fd005636cde08136478092a22cd8dfc84bebf254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 05/71] fix: do not treat offers expiring in the very far
 future as expired

---
 common/pkg/cidoffer/cidoffer.go    | 11 ++++++++---
 common/pkg/cidoffer/subcidoffer.go |  5 +----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 75c744f..7113832 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -135,11 +135,16 @@ func (c *CIDOffer) SetSignature(s string) {
 	c.signature = s
 }
 
+// hasExpired returns true if the given unix time is in the past. It compares seconds, as
+// the largest unix times overflow time.Time.
+func hasExpired(expiry int64) bool {
+	now := time.Now()
+	return expiry < now.Unix() || (expiry == now.Unix() && now.Nanosecond() > 0)
+}
+
 // HasExpired returns true if the offer expiry date is in the past.
 func (c *CIDOffer) HasExpired() bool {
-	expiryTime := time.Unix(c.expiry, 0)
-	now := time.Now()
-	return expiryTime.Before(now)
+	return hasExpired(c.expiry)
 }
 
 // Sign is used to sign the offer with a given private key and a key version.
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 60735fb..a9e8687 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -18,7 +18,6 @@ package cidoffer
 import (
 	"encoding/json"
 	"errors"
-	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
@@ -117,9 +116,7 @@ func (c *SubCIDOffer) GetSignature() string {
 
 // HasExpired returns true if the offer expiry date is in the past.
 func (c *SubCIDOffer) HasExpired() bool {
-	expiryTime := time.Unix(c.expiry, 0)
-	now := time.Now()
-	return expiryTime.Before(now)
+	return hasExpired(c.expiry)
 }
 
 // Verify is used to verify the offer with a given public key.
-- 
2.43.0


From 6fdecb08f4f49496cc42e19dc8284093e4fc8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 06/71] fix: refuse to cut a sub offer for a piece the offer
 does not contain

---
 common/pkg/cidoffer/cidoffer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 7113832..d72c5eb 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -22,6 +22,7 @@ package cidoffer
  */
 
 import (
+	"bytes"
 	"crypto/sha512"
 	"encoding/base64"
 	"encoding/binary"
@@ -179,6 +180,16 @@ func (c *CIDOffer) Verify(pubKey *fcrcrypto.KeyPair) error {
 
 // GenerateSubCIDOffer is used to generate a sub cid offer with proof for a given cid.
 func (c *CIDOffer) GenerateSubCIDOffer(cid *cid.ContentID) (*SubCIDOffer, error) {
+	contained := false
+	for i := range c.cids {
+		if bytes.Equal(c.cids[i].ToBytes(), cid.ToBytes()) {
+			contained = true
+			break
+		}
+	}
+	if !contained {
+		return nil, errors.New("Offer does not contain the given CID")
+	}
 	proof, err := c.merkleTree.GenerateMerkleProof(cid)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e88a516e663ab263c5ecba259976b58fe7a38dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 07/71] fix: keep a message's signature when its verification
 fails

---
 common/pkg/fcrmessages/fcrmessage.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/common/pkg/fcrmessages/fcrmessage.go b/common/pkg/fcrmessages/fcrmessage.go
index d7929d6..daa5219 100644
--- a/common/pkg/fcrmessages/fcrmessage.go
+++ b/common/pkg/fcrmessages/fcrmessage.go
@@ -103,22 +103,17 @@ func (fcrMsg *FCRMessage) Sign(privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.Key
 
 // Verify is used to verify the offer with a given public key.
 func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
-	// Clear signature
-	sig := fcrMsg.signature
-	fcrMsg.signature = ""
 	raw, err := fcrMsg.MarshalToSign()
 	if err != nil {
 		return fmt.Errorf("failed to marshal message during verification, error: %s", err.Error())
 	}
-	res, err := fcrcrypto.VerifyMessage(pubKey, sig, raw)
+	res, err := fcrcrypto.VerifyMessage(pubKey, fcrMsg.signature, raw)
 	if err != nil {
 		return fmt.Errorf("failed to verify message, error: %s", err.Error())
 	}
 	if !res {
 		return errors.New("message does not pass signature verification")
 	}
-	// Recover signature
-	fcrMsg.signature = sig
 	return nil
 }
 
-- 
2.43.0


From 4e7133e8e04ac68a5c2bb3358e1849cb831f4208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 08/71] fix: refuse messages whose parallel lists differ in
 length or whose group offer is missing

---
 common/pkg/fcrmessages/client_dht_discover_offer_request.go    | 3 +++
 common/pkg/fcrmessages/client_dht_discover_offer_response.go   | 3 +++
 common/pkg/fcrmessages/client_dht_discover_response.go         | 3 +++
 common/pkg/fcrmessages/client_dht_discover_response_v2.go      | 3 +++
 common/pkg/fcrmessages/provider_publish_group_offer_request.go | 3 +++
 .../pkg/fcrmessages/provideradmin_publish_dht_offer_request.go | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index 7c9699a..3fcc3b4 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -78,6 +78,9 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
+	if len(msg.GatewaysDigests) != len(msg.GatewayIDs) {
+		return nil, 0, nil, nil, "", "", errors.New("gateway ids and digests have different lengths")
+	}
 	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index 2ab080e..960b383 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
+	if len(msg.Response) != len(msg.GatewayIDs) {
+		return nil, 0, nil, nil, false, "", errors.New("gateway ids and responses have different lengths")
+	}
 	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index e373c5f..c6a85e3 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,6 +73,9 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
+	if len(msg.Response) != len(msg.Contacted) {
+		return nil, nil, nil, 0, false, "", errors.New("contacted gateways and responses have different lengths")
+	}
 	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index acec4cb..9ff0c2e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,6 +73,9 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
+	if len(msg.Response) != len(msg.Contacted) {
+		return nil, nil, nil, 0, false, "", errors.New("contacted gateways and responses have different lengths")
+	}
 	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index 3496a4d..20e7c88 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
+	if len(msg.Offer.GetCIDs()) == 0 {
+		return nil, 0, nil, errors.New("message does not contain an offer")
+	}
 	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
 	if err != nil {
 		return nil, 0, nil, err
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c262df3..84ed592 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,6 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
+	if len(msg.Price) != len(msg.CIDs) || len(msg.Expiry) != len(msg.CIDs) || len(msg.QoS) != len(msg.CIDs) {
+		return nil, nil, nil, nil, errors.New("cids, prices, expiries and qos have different lengths")
+	}
 	cids, err := cid.MapStringToCID(msg.CIDs)
 	if err != nil {
 		return nil, nil, nil, nil, err
-- 
2.43.0


From 3d30e05b84ecab5cce23f702da9b9573b35e73f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 09/71] fix: decode the acknowledgement and liveness flags a
 response carries instead of always true

---
 ...ateway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 common/pkg/fcrmessages/gateway_ping_response.go                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
-- 
2.43.0


From f49ca252c8a394a4c5403ea285491eb5353275bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 10/71] fix: keep the ring linked when its head is removed and
 remove only the identifier named

---
 common/pkg/dhtring/dhtring.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..e138c24 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -151,20 +151,23 @@ func (r *Ring) Remove(hex string) {
 	if r.size == 0 {
 		return
 	}
+	hexKey, _ := new(big.Int).SetString(hex, 16)
 	if r.size == 1 {
-		r.head = nil
-		r.size = 0
+		if r.head.key.Cmp(hexKey) == 0 {
+			r.head = nil
+			r.size = 0
+		}
 		return
 	}
 	if r.size == 2 {
-		if r.head.val == hex {
+		if r.head.key.Cmp(hexKey) == 0 {
 			r.head = r.head.next
 			r.head.next = nil
 			r.head.prv = nil
 			r.head.distPrv = big.NewInt(0)
 			r.head.distNext = big.NewInt(0)
 			r.size = 1
-		} else if r.head.next.val == hex {
+		} else if r.head.next.key.Cmp(hexKey) == 0 {
 			r.head.next = nil
 			r.head.prv = nil
 			r.head.distPrv = big.NewInt(0)
@@ -173,26 +176,24 @@ func (r *Ring) Remove(hex string) {
 		}
 		return
 	}
-	if r.head.val == hex {
-		oldHead := r.head
+	if r.head.key.Cmp(hexKey) == 0 {
+		tail := r.head.prv
 		// first becomes the head
 		r.head = r.head.next
 		// tail links to the new head
-		oldHead.prv = r.head
+		tail.next = r.head
+		r.head.prv = tail
 		// update distances
-		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
+		tailToNewHeadDistance := getDist(tail.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
-		r.head.prv.distNext = tailToNewHeadDistance
-		// help GC
-		oldHead = nil
+		tail.distNext = tailToNewHeadDistance
 		r.size--
 		return
 	}
-	hexKey, _ := new(big.Int).SetString(hex, 16)
 	current := r.head.next
 	for current != nil && current.val != r.head.val {
 		// Loop until we reach nil or we go back to head
-		if current.val == hex {
+		if current.key.Cmp(hexKey) == 0 {
 			// We need to remove current
 			prv := current.prv
 			next := current.next
-- 
2.43.0


From 32fafe87fe21281610d4c73c959ef61fb7b4bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 11/71] fix: answer ring queries without changing the ring, for
 any size, range and letter case

---
 common/pkg/dhtring/dhtring.go | 147 +++++++++++-----------------------
 1 file changed, 45 insertions(+), 102 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index e138c24..7421c11 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -232,79 +232,36 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num <= 0 {
 		return res, nil
 	}
-	// Consider exclusion
+	hexKey, _ := new(big.Int).SetString(hex, 16)
+	var excludeKey *big.Int
 	if exclude != "" {
-		before := r.size
-		r.Remove(exclude)
-		if r.size != before {
-			defer r.Insert(exclude)
-		}
-	}
-	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
-		current := r.head.next
-		for current != nil && current.val != r.head.val {
-			res = append(res, current.val)
-			current = current.next
-		}
-		return res, nil
-	}
-	// Insert & Search & Remove
-	before := r.size
-	r.Insert(hex)
-	if r.size == before {
-		// This already exists
-		res = append(res, hex)
-		if num == 1 {
-			// Return immediately if only requires one
-			return res, nil
-		}
-	} else {
-		defer r.Remove(hex)
+		excludeKey, _ = new(big.Int).SetString(exclude, 16)
 	}
-	// Now search
-	current := r.head
-	for ok := true; ok; ok = current.val != r.head.val {
-		if current.val == hex {
-			// We found it
-			break
+	// All candidates in clockwise order, starting at the first one at or behind the given hex
+	candidates := make([]*ringNode, 0, r.size)
+	for _, node := range r.clockwiseFrom(hexKey) {
+		if excludeKey == nil || node.key.Cmp(excludeKey) != 0 {
+			candidates = append(candidates, node)
 		}
-		current = current.next
 	}
-	// Now current is the hex inserted
-	prv := current.prv
-	distToPrv := big.NewInt(0)
-	distToPrv.Add(distToPrv, current.distPrv)
-	next := current.next
-	distToNext := big.NewInt(0)
-	distToNext.Add(distToNext, current.distNext)
-	for {
-		// If prv and next is the same thing
-		// Add it and return
-		if prv.val == next.val {
-			res = append(res, prv.val)
-			break
+	// Now search, next moves clockwise and prv moves counter clockwise
+	next, prv := 0, len(candidates)-1
+	for next <= prv && len(res) < num {
+		distToNext := big.NewInt(0)
+		if candidates[next].key.Cmp(hexKey) != 0 {
+			distToNext = getDist(hexKey, candidates[next].key)
 		}
-		// fmt.Printf("\n\nprv %v\ndist to prv %v\nnext %v\ndist to next %v\n\n", prv.val, distToPrv, next.val, distToNext)
-		cmp := distToPrv.Cmp(distToNext)
+		distToPrv := getDist(candidates[prv].key, hexKey)
 		// If equal, we choose the previous one
-		if cmp <= 0 {
-			res = append([]string{prv.val}, res...)
-			distToPrv.Add(distToPrv, prv.distPrv)
-			prv = prv.prv
+		if distToPrv.Cmp(distToNext) <= 0 {
+			res = append([]string{candidates[prv].val}, res...)
+			prv--
 		} else {
-			res = append(res, next.val)
-			distToNext.Add(distToNext, next.distNext)
-			next = next.next
-		}
-		if len(res) == num {
-			// We have enough
-			break
+			res = append(res, candidates[next].val)
+			next++
 		}
 	}
 	return res, nil
@@ -317,49 +274,35 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	var startNode *ringNode
-	var endNode *ringNode
-	addStart := false
-	addEnd := false
-	if temp := r.get(startHex); temp != nil {
-		startNode = temp
-		addStart = true
-	} else {
-		r.Insert(startHex)
-		startNode = r.get(startHex)
-		if startNode == nil {
-			return res, errors.New("internal error")
+	startKey, _ := new(big.Int).SetString(startHex, 16)
+	endKey, _ := new(big.Int).SetString(endHex, 16)
+	length := big.NewInt(0)
+	if startKey.Cmp(endKey) != 0 {
+		length = getDist(startKey, endKey)
+	}
+	for _, node := range r.clockwiseFrom(startKey) {
+		if node.key.Cmp(startKey) != 0 && getDist(startKey, node.key).Cmp(length) > 0 {
+			break
 		}
-		defer r.Remove(startHex)
+		res = append(res, node.val)
 	}
+	return res, nil
+}
 
-	if temp := r.get(endHex); temp != nil {
-		endNode = temp
-		addEnd = true
-	} else {
-		r.Insert(endHex)
-		endNode = r.get(endHex)
-		if endNode == nil {
-			return res, errors.New("internal error")
+// clockwiseFrom gets all ringNodes in clockwise order, starting at the first one at or behind the given key
+func (r *Ring) clockwiseFrom(key *big.Int) []*ringNode {
+	before := make([]*ringNode, 0)
+	res := make([]*ringNode, 0, r.size)
+	current := r.head
+	for i := 0; i < r.size; i++ {
+		if current.key.Cmp(key) < 0 {
+			before = append(before, current)
+		} else {
+			res = append(res, current)
 		}
-		defer r.Remove(endHex)
-	}
-
-	if addStart {
-		res = append(res, startHex)
-	}
-
-	next := startNode.next
-	for next.val != endNode.val {
-		res = append(res, next.val)
-		next = next.next
-	}
-
-	if addEnd {
-		res = append(res, endHex)
+		current = current.next
 	}
-
-	return res, nil
+	return append(res, before...)
 }
 
 // Size gets the size of the ring
-- 
2.43.0


From cd582a2ebd9f23b039b0c2d906b33e62da3fa903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 12/71] fix: make the offer store safe for concurrent use and
 keep expired offers out of digest look-ups

---
 common/pkg/fcroffermgr/offer_manager.go | 34 ++++++++++---------------
 common/pkg/fcroffermgr/offer_storage.go | 32 +++++++++++++++--------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..96315ff 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -23,6 +23,7 @@ package fcroffermgr
 
 import (
 	"errors"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
@@ -34,6 +35,7 @@ import (
 type FCROfferMgr struct {
 	dhtOffers    *offerStorage
 	dhtOfferRing *dhtring.Ring
+	ringLock     sync.RWMutex
 	groupOffers  *offerStorage
 }
 
@@ -59,8 +61,13 @@ func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) != 1 {
 		return errors.New("not a DHT offer")
 	}
+	if err := mgr.dhtOffers.add(offer); err != nil {
+		return err
+	}
+	mgr.ringLock.Lock()
+	defer mgr.ringLock.Unlock()
 	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
-	return mgr.dhtOffers.add(offer)
+	return nil
 }
 
 // GetGroupOffers returns a list of group offers that contain the given cid
@@ -79,7 +86,9 @@ func (mgr *FCROfferMgr) GetDHTOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, b
 func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, maxOffers int) ([]cidoffer.CIDOffer, bool) {
 	offers := make([]cidoffer.CIDOffer, 0)
 
+	mgr.ringLock.RLock()
 	entries, err := mgr.dhtOfferRing.GetWithinRange(cidMin.ToString(), cidMax.ToString())
+	mgr.ringLock.RUnlock()
 	if err != nil {
 		return offers, false
 	}
@@ -92,10 +101,10 @@ func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, m
 		}
 		offersTemp := mgr.dhtOffers.get(contentID)
 		for _, offer := range offersTemp {
-			offers = append(offers, offer)
 			if len(offers) >= maxOffers {
 				return offers, len(offers) > 0
 			}
+			offers = append(offers, offer)
 		}
 	}
 
@@ -111,24 +120,9 @@ func (mgr *FCROfferMgr) GetOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool
 // GetOfferByDigest allows a gateway to be able to respond to a query to search for an offer by the offer digest
 func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (result *cidoffer.CIDOffer, exist bool) {
 	// first, look in DHT offers
-	mgr.dhtOffers.lock.RLock()
-	defer mgr.dhtOffers.lock.RUnlock()
-	for _, digestAndOffer := range mgr.dhtOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
+	if result, exist = mgr.dhtOffers.getByDigest(digest); exist {
+		return result, true
 	}
 	// look in Group offers
-	for _, digestAndOffer := range mgr.groupOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
-	}
-	return nil, false
+	return mgr.groupOffers.getByDigest(digest)
 }
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..7c2d6a1 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -51,12 +51,10 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	if len(testCIDs) == 0 {
 		return errors.New("this offer has no cid")
 	}
-	testCIDStr := testCIDs[0].ToString()
 	digest := newOffer.GetMessageDigest()
-	o.lock.RLock()
-	digestMap, exists := o.cidMap[testCIDStr]
-	o.lock.RUnlock()
-	if exists {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	if digestMap, exists := o.cidMap[testCIDs[0].ToString()]; exists {
 		digestMap.lock.RLock()
 		_, exists = digestMap.dMap[digest]
 		digestMap.lock.RUnlock()
@@ -72,18 +70,14 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
-		o.lock.RLock()
-		digestMap, exists = o.cidMap[cidStr]
-		o.lock.RUnlock()
+		digestMap, exists := o.cidMap[cidStr]
 		if !exists {
 			// Need a new entry in cid map
-			o.lock.Lock()
 			digestMap = &digestOffer{
 				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
 				lock: sync.RWMutex{},
 			}
 			o.cidMap[cidStr] = digestMap
-			o.lock.Unlock()
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
@@ -93,6 +87,24 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	return nil
 }
 
+// getByDigest returns the offer with the given digest. It only returns an offer that is yet expired.
+func (o *offerStorage) getByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	for _, digestMap := range o.cidMap {
+		digestMap.lock.RLock()
+		offer, exists := digestMap.dMap[digest]
+		digestMap.lock.RUnlock()
+		if exists {
+			if offer.HasExpired() {
+				return nil, false
+			}
+			return offer, true
+		}
+	}
+	return nil, false
+}
+
 // get returns a list of offers that contains piece cid. It only returns offers that are yet expired.
 func (o *offerStorage) get(cid *cid.ContentID) []cidoffer.CIDOffer {
 	res := make([]cidoffer.CIDOffer, 0)
-- 
2.43.0


From 510f61def934ab7942eb46da86e84b1331904161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 13/71] fix: make the persistent offer store return each
 unexpired offer once, whole and independent of the time zone

Offers are inserted in one transaction, expiry is compared in unix seconds
instead of through a time zone conversion, prices above the signed range are
stored, a piece named twice no longer repeats an offer, ranges may wrap
around, and result rows are closed.
---
 common/pkg/offermgr/offer_manager.go | 109 +++++++++++++++++++--------
 1 file changed, 77 insertions(+), 32 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index dbd8eca..1ecafcf 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -3,10 +3,13 @@ package offermgr
 
 import (
 	"encoding/hex"
+	"strings"
+	"time"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/database"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
 )
 
@@ -89,44 +92,59 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 		where not exists (select 1 from content where content_no = ? and digest = ?)`
 	digestArr := offer.GetMessageDigest()
 	digestHex := hex.EncodeToString(digestArr[:])
-	_, err = mgr.db.Exec(sqlInsertOffer, digestHex,
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	// the database only knows signed integers
+	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
-		offer.GetPrice(),
-		offer.GetQoS(),
+		int64(offer.GetPrice()),
+		int64(offer.GetQoS()),
 		offer.GetSignature(), digestHex)
 	if err != nil {
 		return err
 	}
-	i := 0
-	for _, contentID := range offer.GetCIDs() {
-		_, err = mgr.db.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
-		i++
+	for i, contentID := range offer.GetCIDs() {
+		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		if err != nil {
+			return err
+		}
 	}
-	return err
+	return tx.Commit()
 }
 
 // selectOffersSingle retrieves offers by a CID
 func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
 	sqlSelectOffer :=
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
-		from offer o join content c on o.digest=c.digest 
-		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		from offer o, (select distinct digest from content
+				where content_id=?) c
+		where o.digest=c.digest
+		and o.expiry > ?`
 
-	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
+	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString(), time.Now().Unix())
 }
 
 // selectOffersRange retrieves offers by a range of CIDs
 func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID, cidMax *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
+	if maxOffers <= 0 {
+		return nil, false
+	}
 	sqlSelectOffer :=
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > ?`
+	if cidMin.ToString() > cidMax.ToString() {
+		// The range wraps around
+		sqlSelectOffer = strings.Replace(sqlSelectOffer, "content_id>=? and content_id<=?", "content_id>=? or content_id<=?", 1)
+	}
 
-	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
+	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString(), time.Now().Unix())
 }
 
 // selectOffersDigest retrieves a offer by a digest
@@ -135,9 +153,9 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > ?`
 
-	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
+	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest), time.Now().Unix())
 	if !exist {
 		return nil, exist
 	}
@@ -150,29 +168,34 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	if err != nil {
 		return
 	}
+	defer offerRows.Close()
 	var cnt int
-	sqlSelectContent := `select content_id from content where digest=? order by content_no`
 	for offerRows.Next() {
 		var digestHex, providerHex string
-		var expiry int64
-		var price, qos uint64
+		var expiry, price, qos int64
 		var signature string
-		offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature)
-		providerID, _ := nodeid.NewNodeIDFromHexString(providerHex)
-
-		cidRows, _ := mgr.db.Query(sqlSelectContent, digestHex)
-		cids := []cid.ContentID{}
-		for cidRows.Next() {
-			var aCidStr string
-			cidRows.Scan(&aCidStr)
-			aCid, _ := cid.NewContentIDFromHexString(aCidStr)
-			cids = append(cids, *aCid)
-			find = true
+		if err := offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature); err != nil {
+			logging.Error("Fail to read an offer: %v", err)
+			continue
+		}
+		providerID, err := nodeid.NewNodeIDFromHexString(providerHex)
+		if err != nil {
+			logging.Error("Fail to read the provider of an offer: %v", err)
+			continue
+		}
+		cids, err := mgr.selectContents(digestHex)
+		if err != nil {
+			logging.Error("Fail to read the contents of an offer: %v", err)
+			continue
+		}
+		offer, err := cidoffer.NewCIDOffer(providerID, cids, uint64(price), expiry, uint64(qos))
+		if err != nil {
+			logging.Error("Fail to restore an offer: %v", err)
+			continue
 		}
-
-		offer, _ := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
 		offer.SetSignature(signature)
 		res = append(res, *offer)
+		find = true
 		cnt++
 		if cnt >= maxOffers && maxOffers > 0 {
 			break
@@ -180,3 +203,25 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	}
 	return
 }
+
+// selectContents retrieves the cids of an offer in their order
+func (mgr *FCROfferMgr) selectContents(digestHex string) ([]cid.ContentID, error) {
+	cidRows, err := mgr.db.Query(`select content_id from content where digest=? order by content_no`, digestHex)
+	if err != nil {
+		return nil, err
+	}
+	defer cidRows.Close()
+	cids := []cid.ContentID{}
+	for cidRows.Next() {
+		var aCidStr string
+		if err := cidRows.Scan(&aCidStr); err != nil {
+			return nil, err
+		}
+		aCid, err := cid.NewContentIDFromHexString(aCidStr)
+		if err != nil {
+			return nil, err
+		}
+		cids = append(cids, *aCid)
+	}
+	return cids, cidRows.Err()
+}
-- 
2.43.0


From d1b7e34cee86c6f5684336d122d71d2cc68c581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 14/71] fix: do not share the caller's amount with the balance
 of a new payment channel

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..a7db27d 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -167,7 +167,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *big.NewInt(0).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From 01b584fb9701b3eec13591c56a093ea7e758298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 15/71] fix: create only one payment channel when first top-ups
 to a recipient are concurrent

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index a7db27d..b1d3743 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -135,6 +135,14 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Need to create a channel
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
+		// Another top-up may have created the channel in the meantime
+		cs, ok = mgr.outboundChs[recipient]
+		if ok {
+			mgr.outboundChsLock.Unlock()
+			mgr.outboundChsLock.RLock()
+		}
+	}
+	if !ok {
 		defer mgr.outboundChsLock.Unlock()
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
-- 
2.43.0


From 20578a6f2430ef1bf29764171447e9ea4c0fb8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 16/71] fix: refuse negative payments and top-ups

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index b1d3743..2b1f901 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -115,6 +115,9 @@ func NewFCRPaymentMgr(privateKey, lotusAPIAddr, authToken string) (*FCRPaymentMg
 
 // Topup will topup a payment channel to recipient with given amount. (amount of value "1" equals 1 coin)
 func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
+	if amount.Sign() < 0 {
+		return errors.New("negative amount")
+	}
 	// Get recipient address
 	recipientAddr, err := address.NewFromString(recipient)
 	if err != nil {
@@ -217,6 +220,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 // Pay will generate a voucher and pay the recipient a given amount.
 // Return channel address, voucher, true if needs to top up, and error.
 func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
+	if amount.Sign() < 0 {
+		return "", "", false, errors.New("negative amount")
+	}
 	zero, err := types.ParseFIL("0")
 	if err != nil {
 		return "", "", false, err
-- 
2.43.0


From 99bc86d73c353570f2e1661919312e682985881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 17/71] fix: refuse vouchers made for another payment channel
 or presented under another spelling of theirs

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 2b1f901..c1d616d 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -301,6 +301,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	if sv.ChannelAddr != channelAddr {
+		return nil, errors.New("receive voucher method failed, voucher is for a different channel")
+	}
+	// One name per channel, as an address has several text forms
+	channel = channelAddr.String()
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From d124900c7b602a7afb34eea8fe663b2c6aea985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 18/71] fix: refuse an unexpected payment channel state instead
 of crashing

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index c1d616d..df1e3d8 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -318,11 +318,22 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error reading state: %s", err.Error())
 	}
+	if state == nil || state.Balance.Int == nil {
+		return nil, errors.New("receive voucher method failed, no channel state")
+	}
 	// TODO, Need to make sure it is indeed paych actor state
 	paychState, ok := state.State.(map[string]interface{})
 	if !ok {
 		return nil, errors.New("receive voucher method failed, not a paych state")
 	}
+	toStr, ok := paychState["To"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
+	fromStr, ok := paychState["From"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
 
 	// Get channel state from local storage
 	mgr.inboundChsLock.RLock()
@@ -355,7 +366,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	to, err := address.NewFromString(toStr)
 	if err != nil {
 		return nil, err
 	}
@@ -368,7 +379,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	f, err := address.NewFromString(fromStr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 232226c786cc23de642d28a1212ecfa5ef1f6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 19/71] fix: keep the state of a new inbound payment channel
 when its first vouchers are concurrent

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index df1e3d8..e82b9a7 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -342,6 +342,14 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		// Need to create a entry in local storage
 		mgr.inboundChsLock.RUnlock()
 		mgr.inboundChsLock.Lock()
+		// Another receiver may have created the entry in the meantime
+		cs, ok = mgr.inboundChs[channel]
+		if ok {
+			mgr.inboundChsLock.Unlock()
+			mgr.inboundChsLock.RLock()
+		}
+	}
+	if !ok {
 		defer mgr.inboundChsLock.Unlock()
 		cs = &channelState{
 			addr:       channelAddr,
-- 
2.43.0


From 5e4530812716d47a99981560cd636fdf27ce2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 20/71] fix: do not lock the gateway ring twice when computing
 a gateway's piece range

---
 common/pkg/fcrregistermgr/register_manager.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..b91102c 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -296,9 +296,7 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
+	// GetGatewaysNearCID takes the locks
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 3cf99976a43ac191bdeac85cada44838000d8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 21/71] fix: let every concurrent refresh of the registry wait
 for its own update

---
 common/pkg/fcrregistermgr/register_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index b91102c..94e661d 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -56,6 +56,9 @@ type FCRRegisterMgr struct {
 	gatewayRefreshCh   chan bool
 	providerRefreshCh  chan bool
 
+	// refreshLock serialises callers of Refresh, a refresh and its completion share a channel
+	refreshLock sync.Mutex
+
 	// registeredGatewaysMap stores mapping from gateway id (big int in string repr) to its registration info
 	registeredGatewaysMap     map[string]register.GatewayRegistrar
 	registeredGatewaysMapLock sync.RWMutex
@@ -151,6 +154,8 @@ func (mgr *FCRRegisterMgr) Refresh() {
 	if !mgr.start {
 		return
 	}
+	mgr.refreshLock.Lock()
+	defer mgr.refreshLock.Unlock()
 	if mgr.gatewayDiscv {
 		mgr.gatewayRefreshCh <- true
 		<-mgr.gatewayRefreshCh
-- 
2.43.0


From 75701ae9d5bcd9ec0fc14b97f3ca40409e9afcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 22/71] fix: look registered nodes up by the value of their id
 and skip entries without a valid one

---
 common/pkg/fcrregistermgr/register_manager.go | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 94e661d..2ab80a1 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -271,6 +271,9 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 	var result []register.GatewayRegistrar
 	for _, g := range gateways {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewGatewayRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoProvider, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -294,6 +297,9 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 	}
 	var result []register.ProviderRegistrar
 	for _, g := range providers {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewProviderRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -372,23 +378,30 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 		gateways := mgr.pullGatewaysFromRegisterSrv()
 		// Check for update
 		for _, gateway := range gateways {
+			// Entries are looked up by the canonical text of their id
+			id, err := nodeid.NewNodeIDFromHexString(gateway.GetNodeID())
+			if err != nil {
+				logging.Error("ignoring registered gateway with invalid id %s: %s", gateway.GetNodeID(), err.Error())
+				continue
+			}
+			key := id.ToString()
 			mgr.registeredGatewaysMapLock.RLock()
-			storedInfo, ok := mgr.registeredGatewaysMap[gateway.GetNodeID()]
+			storedInfo, ok := mgr.registeredGatewaysMap[key]
 			mgr.registeredGatewaysMapLock.RUnlock()
 			if !ok {
 				// Not exist, we need to add a new entry
 				mgr.registeredGatewaysMapLock.Lock()
-				mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway
+				mgr.registeredGatewaysMap[key] = gateway
 				mgr.registeredGatewaysMapLock.Unlock()
 				mgr.closestGatewaysIDsLock.Lock()
-				mgr.closestGatewaysIDs.Insert(gateway.GetNodeID())
+				mgr.closestGatewaysIDs.Insert(key)
 				mgr.closestGatewaysIDsLock.Unlock()
 			} else {
 				// Exist, check if need update
 				if gateway != storedInfo {
 					// Need update
 					mgr.registeredGatewaysMapLock.Lock()
-					mgr.registeredGatewaysMap[gateway.GetNodeID()] = gateway
+					mgr.registeredGatewaysMap[key] = gateway
 					mgr.registeredGatewaysMapLock.Unlock()
 				}
 			}
@@ -422,20 +435,27 @@ func (mgr *FCRRegisterMgr) updateProviders() {
 		providers := mgr.pullProvidersFromRegisterSrv()
 		// Check for update
 		for _, provider := range providers {
+			// Entries are looked up by the canonical text of their id
+			id, err := nodeid.NewNodeIDFromHexString(provider.GetNodeID())
+			if err != nil {
+				logging.Error("ignoring registered provider with invalid id %s: %s", provider.GetNodeID(), err.Error())
+				continue
+			}
+			key := id.ToString()
 			mgr.registeredProvidersMapLock.RLock()
-			storedInfo, ok := mgr.registeredProvidersMap[provider.GetNodeID()]
+			storedInfo, ok := mgr.registeredProvidersMap[key]
 			mgr.registeredProvidersMapLock.RUnlock()
 			if !ok {
 				// Not exist, we need to add a new entry
 				mgr.registeredProvidersMapLock.Lock()
-				mgr.registeredProvidersMap[provider.GetNodeID()] = provider
+				mgr.registeredProvidersMap[key] = provider
 				mgr.registeredProvidersMapLock.Unlock()
 			} else {
 				// Exist, check if need update
 				if provider != storedInfo {
 					// Need update
 					mgr.registeredProvidersMapLock.Lock()
-					mgr.registeredProvidersMap[provider.GetNodeID()] = provider
+					mgr.registeredProvidersMap[key] = provider
 					mgr.registeredProvidersMapLock.Unlock()
 				}
 			}
-- 
2.43.0


From 9a0597073b74a024b400ff56135e75686da63809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 23/71] fix: do not lose a message that arrives together with
 the previous one

---
 common/pkg/fcrp2pserver/tcp_comms.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..bdf5765 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -33,15 +33,14 @@ func isTimeoutError(err error) bool {
 
 // readTCPMessage read the tcp message from a given connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
+	// Read no further than this message, the next one may follow right away
 	// Read the length
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err := io.ReadFull(reader, length)
+	_, err := io.ReadFull(conn, length)
 	if err != nil {
 		return nil, err
 	}
@@ -51,7 +50,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err = io.ReadFull(reader, data)
+	_, err = io.ReadFull(conn, data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5759a9b6d1734a4a4cae64726015ed49fdddd3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 24/71] fix: drop a connection that stalls in the middle of a
 message instead of reading on from there

---
 common/pkg/fcrp2pserver/tcp_comms.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index bdf5765..b6d9533 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,6 +18,7 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"net"
 	"time"
@@ -31,6 +32,12 @@ func isTimeoutError(err error) bool {
 	return ok && neterr.Timeout()
 }
 
+// errIncomplete is the error for a connection that failed or timed out in the middle of a message. It is never a
+// timeout error, as what follows on the connection is not the start of a message.
+func errIncomplete(err error) error {
+	return fmt.Errorf("incomplete message: %s", err.Error())
+}
+
 // readTCPMessage read the tcp message from a given connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
 	// Read no further than this message, the next one may follow right away
@@ -40,8 +47,11 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err := io.ReadFull(conn, length)
+	n, err := io.ReadFull(conn, length)
 	if err != nil {
+		if n > 0 {
+			return nil, errIncomplete(err)
+		}
 		return nil, err
 	}
 	// Read the data
@@ -52,7 +62,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	}
 	_, err = io.ReadFull(conn, data)
 	if err != nil {
-		return nil, err
+		return nil, errIncomplete(err)
 	}
 	return fcrmessages.FCRMsgFromBytes(data)
 }
-- 
2.43.0


From 982e49c557538cf534093eecb97b2d38174597e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 25/71] fix: do not reserve memory for the length a peer claims
 before receiving the data

---
 common/pkg/fcrp2pserver/tcp_comms.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index b6d9533..187a970 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -17,6 +17,7 @@ package fcrp2pserver
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -55,16 +56,18 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 		return nil, err
 	}
 	// Read the data
-	data := make([]byte, int(binary.BigEndian.Uint32(length)))
+	size := int64(binary.BigEndian.Uint32(length))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err = io.ReadFull(conn, data)
+	// The buffer grows with the data received, not with the length claimed
+	var data bytes.Buffer
+	_, err = io.CopyN(&data, conn, size)
 	if err != nil {
 		return nil, errIncomplete(err)
 	}
-	return fcrmessages.FCRMsgFromBytes(data)
+	return fcrmessages.FCRMsgFromBytes(data.Bytes())
 }
 
 // sendTCPMessage sends a tcp message to a given connection.
-- 
2.43.0


From e141b056310c6a12691fff4d3ce469391f8e9cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 26/71] fix: give up a failed peer connection once, without
 crashing or blocking the requests waiting for it

---
 common/pkg/fcrp2pserver/pool.go      | 70 ++++++++++++++++++++--------
 common/pkg/fcrp2pserver/server.go    | 21 ++++-----
 common/pkg/fcrp2pserver/tcp_comms.go |  8 ++--
 3 files changed, 63 insertions(+), 36 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..a77aff8 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -40,9 +40,11 @@ const (
 // communicationChannel holds the connection for sending outgoing TCP requests.
 // lock is used to ensure only one thread can access the tcp connection at any time.
 // conn is the net connection for sending outgoing TCP requests.
+// closed is set, under the lock, once a request failed and the connection was given up.
 type communicationChannel struct {
-	lock sync.RWMutex
-	conn net.Conn
+	lock   sync.RWMutex
+	conn   net.Conn
+	closed bool
 }
 
 // communicationPool holds the node address map and active node connections.
@@ -142,32 +144,60 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	return comm, nil
 }
 
-// removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
-	c.activeGatewaysLock.Lock()
-	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
+// lockGatewayConn gets a connection to a given gateway and locks it for one request.
+func (c *communicationPool) lockGatewayConn(id *nodeid.NodeID, accessFrom int) (*communicationChannel, error) {
+	for {
+		comm, err := c.getGatewayConn(id, accessFrom)
+		if err != nil {
+			return nil, err
+		}
 		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
+		if !comm.closed {
+			return comm, nil
 		}
+		// A request before this one failed and gave the connection up, get another.
+		comm.lock.Unlock()
+	}
+}
+
+// removeActiveGateway removes a given connection, which the caller has locked, to a gateway, and closes it.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
+	c.activeGatewaysLock.Lock()
+	if c.activeGateways[id.ToString()] == comm {
 		delete(c.activeGateways, id.ToString())
 	}
+	c.activeGatewaysLock.Unlock()
+	comm.closed = true
+	if err := comm.conn.Close(); err != nil {
+		logging.Error("P2P server has error closing connection to gateway %s: %s", id.ToString(), err.Error())
+	}
 }
 
-// removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
-	c.activeProvidersLock.Lock()
-	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
+// lockProviderConn gets a connection to a given provider and locks it for one request.
+func (c *communicationPool) lockProviderConn(id *nodeid.NodeID) (*communicationChannel, error) {
+	for {
+		comm, err := c.getProviderConn(id)
+		if err != nil {
+			return nil, err
+		}
 		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
+		if !comm.closed {
+			return comm, nil
 		}
+		// A request before this one failed and gave the connection up, get another.
+		comm.lock.Unlock()
+	}
+}
+
+// removeActiveProvider removes a given connection, which the caller has locked, to a provider, and closes it.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
+	c.activeProvidersLock.Lock()
+	if c.activeProviders[id.ToString()] == comm {
 		delete(c.activeProviders, id.ToString())
 	}
+	c.activeProvidersLock.Unlock()
+	comm.closed = true
+	if err := comm.conn.Close(); err != nil {
+		logging.Error("P2P server has error closing connection to provider %s: %s", id.ToString(), err.Error())
+	}
 }
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..29b730e 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -169,20 +169,19 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getGatewayConn(id, accessFromGateway)
+	comm, err := s.pool.lockGatewayConn(id, accessFromGateway)
 	if err != nil {
 		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
-	comm.lock.Lock()
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -197,20 +196,19 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getGatewayConn(id, accessFromProvider)
+	comm, err := s.pool.lockGatewayConn(id, accessFromProvider)
 	if err != nil {
 		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
-	comm.lock.Lock()
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
+		s.pool.removeActiveGateway(id, comm)
 		return nil, err
 	}
 	return response, err
@@ -225,20 +223,19 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getProviderConn(id)
+	comm, err := s.pool.lockProviderConn(id)
 	if err != nil {
 		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
-	comm.lock.Lock()
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
+		s.pool.removeActiveProvider(id, comm)
 		return nil, err
 	}
 	return response, err
diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 187a970..3c1f05e 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -46,7 +46,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
 	n, err := io.ReadFull(conn, length)
 	if err != nil {
@@ -59,7 +59,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	size := int64(binary.BigEndian.Uint32(length))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
 	// The buffer grows with the data received, not with the length claimed
 	var data bytes.Buffer
@@ -83,7 +83,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	binary.BigEndian.PutUint32(length, uint32(len(data)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	_, err = writer.Write(append(length, data...))
 	if err != nil {
@@ -91,7 +91,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	return writer.Flush()
 }
-- 
2.43.0


From ef2822dadda4e840d45f13888c8974dd9377f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 27/71] fix: keep connections to the two access points of a
 gateway apart

---
 common/pkg/fcrp2pserver/pool.go   | 22 +++++++++++++++-------
 common/pkg/fcrp2pserver/server.go |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index a77aff8..e3b68dc 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -23,6 +23,7 @@ package fcrp2pserver
 
 import (
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 
@@ -58,10 +59,16 @@ type communicationPool struct {
 	activeProvidersLock sync.RWMutex
 }
 
+// gatewayKey is the key of a connection to the given access point of a gateway
+func gatewayKey(id *nodeid.NodeID, accessFrom int) string {
+	return fmt.Sprintf("%s/%d", id.ToString(), accessFrom)
+}
+
 // getGatewayConn gets a connection to a given gateway for sending request
 func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*communicationChannel, error) {
+	key := gatewayKey(id, accessFrom)
 	c.activeGatewaysLock.RLock()
-	comm := c.activeGateways[id.ToString()]
+	comm := c.activeGateways[key]
 	c.activeGatewaysLock.RUnlock()
 	if comm != nil {
 		return comm, nil
@@ -88,14 +95,14 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	c.activeGatewaysLock.Lock()
 	// It is possible that another thread creates a connection before this thread,
 	// so do a final check here.
-	if c.activeGateways[id.ToString()] == nil {
+	if c.activeGateways[key] == nil {
 		comm = &communicationChannel{
 			lock: sync.RWMutex{},
 			conn: conn,
 		}
-		c.activeGateways[id.ToString()] = comm
+		c.activeGateways[key] = comm
 	} else {
-		comm = c.activeGateways[id.ToString()]
+		comm = c.activeGateways[key]
 		if err := conn.Close(); err != nil {
 			panic(err)
 		}
@@ -161,10 +168,11 @@ func (c *communicationPool) lockGatewayConn(id *nodeid.NodeID, accessFrom int) (
 }
 
 // removeActiveGateway removes a given connection, which the caller has locked, to a gateway, and closes it.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, accessFrom int, comm *communicationChannel) {
 	c.activeGatewaysLock.Lock()
-	if c.activeGateways[id.ToString()] == comm {
-		delete(c.activeGateways, id.ToString())
+	key := gatewayKey(id, accessFrom)
+	if c.activeGateways[key] == comm {
+		delete(c.activeGateways, key)
 	}
 	c.activeGatewaysLock.Unlock()
 	comm.closed = true
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index 29b730e..bae7697 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -181,7 +181,7 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 	response, err := requester(reader, writer, args...)
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id, comm)
+		s.pool.removeActiveGateway(id, accessFromGateway, comm)
 		return nil, err
 	}
 	return response, err
@@ -208,7 +208,7 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 	response, err := requester(reader, writer, args...)
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id, comm)
+		s.pool.removeActiveGateway(id, accessFromProvider, comm)
 		return nil, err
 	}
 	return response, err
-- 
2.43.0


From 1d0943895753623927c47994837f383b7f781778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 28/71] fix: release the provider map after looking up an
 unknown provider

---
 common/pkg/fcrregistermgr/register_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 2ab80a1..a895fb7 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -206,6 +206,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		return nil
 	}
 	mgr.registeredProvidersMapLock.RLock()
+	defer mgr.registeredProvidersMapLock.RUnlock()
 	provider, ok := mgr.registeredProvidersMap[id.ToString()]
 	if !ok {
 		mgr.registeredProvidersMapLock.RUnlock()
@@ -217,7 +218,6 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 			return nil
 		}
 	}
-	defer mgr.registeredProvidersMapLock.RUnlock()
 	return provider
 }
 
-- 
2.43.0


From bc0d8169b7a757e30fabeb10ef78efb88d9a0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 29/71] fix: close the storage connections of each register
 request

---
 register/internal/handlers/gateways_handler.go  | 4 ++++
 register/internal/handlers/providers_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 924ab8e..7b03973 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -25,6 +25,7 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
@@ -46,6 +47,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegisters, err := rdb.HGetAll(ctx, "gateway").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
 	if err != nil {
@@ -106,6 +109,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 62b7c0e..51878d8 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -25,6 +25,7 @@ func AddProviderRegister(params op.AddProviderRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()
 	if err != nil {
@@ -48,6 +49,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	providerRegisters, err := rdb.HGetAll(ctx, "provider").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
 	if err != nil {
@@ -108,6 +111,7 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
-- 
2.43.0


From 643dc5e0199bb8e051a94fbb3b01314af8694140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 30/71] fix: report a storage failure of the register instead
 of breaking the connection

---
 register/internal/handlers/gateways_handler.go  | 10 ++++++----
 register/internal/handlers/providers_handler.go |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 7b03973..6ec1fcd 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -29,8 +29,9 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
-		log.Error("Unable to set Redis value")
-		panic(err)
+		msg := "Unable to set Redis value"
+		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
+		return op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	log.Info("register created a gateway record with ID: %s", params.Register.NodeID)
@@ -124,8 +125,9 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		log.Info("register deleted a gateway record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeGateway, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to set Redis value"
+			log.Error("%s, error in DeleteGatewayRegisters: %s", msg, err.Error())
+			return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
 	}
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 51878d8..c9bade0 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -126,8 +126,9 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		log.Info("register deleted a provider record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeProvider, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to set Redis value"
+			log.Error("%s, error in DeleteProviderRegisters: %s", msg, err.Error())
+			return op.NewDeleteProviderRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
 	}
 
-- 
2.43.0


From 1f08848a62d7e2a90c87d109d85a746e2ef51510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 31/71] fix: deliver only offers the gateway holds to a paying
 client

An unknown digest made the offer request fail with a nil dereference, digests of
other pieces put empty offers into the answer and found spoke of the last digest only.
---
 .../clientapi/standard_discover_offer_handler.go  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..bde5035 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,22 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
 		found := false
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			found = true
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, true)
 		}
 
 		// Construct response
-- 
2.43.0


From ff61aacf88d01ab29faa200c0b557f5da3f880b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 32/71] fix: sell offers to peer gateways at the configured
 price, and only for it

The handler multiplied the configured price itself on every request, handed the offers
out even when the payment fell short, and an unknown digest crashed the gateway.
---
 .../gatewayapi/dht_discover_offer_handler.go  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..6cd5a35 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,29 +62,33 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0)
+	fundedPaymentChannel := make([]bool, 0)
+	found := false
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		found = true
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, true)
 	}
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From c919a185bd8f612309a290d91dc881d600acbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 33/71] fix: do not give offer digests to a peer gateway that
 has not paid

---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..2b6a782 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
-- 
2.43.0


From 551c62d94303c07cff5f14b8e439d593033d6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 34/71] fix: stop a DHT search or purchase that the client has
 not paid for

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go    | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
-- 
2.43.0


From c533a4625b9775802c604bf2b248f78df04043cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 35/71] fix: skip unknown gateways in a DHT offer purchase
 instead of failing

---
 .../internal/api/clientapi/dht_discover_offer_handler.go  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..7c3bc7d 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -64,9 +64,15 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	contactedGateways := make([]nodeid.NodeID, 0)
 	contactedResp := make([]fcrmessages.FCRMessage, 0)
 	unContactable := make([]nodeid.NodeID, 0)
-	for idx, targetGatewayID := range targetGatewayIDs {
+	for idx := range targetGatewayIDs {
+		targetGatewayID := targetGatewayIDs[idx]
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Unknown gateway: %v", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-- 
2.43.0


From c0f8f1c9a049b42264dbad42730e66a3ba71ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 36/71] fix: pay the price of the offers after a top-up, not
 the search price

---
 .../api/clientapi/dht_discover_offer_handler.go        | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7c3bc7d..4697246 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -83,15 +83,9 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
-				s := "Fail to pay recipient."
+				s := "Fail to pay recipient after topping up."
 				logging.Error(s + err.Error())
 				rest.Error(w, s, http.StatusBadRequest)
 				return
-- 
2.43.0


From 66357b7663d4093285b0080e0bb0ee37b4e81909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 37/71] fix: store no offer of a publication that is rejected

---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..4614cde 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -62,7 +62,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
+	}
 
+	// Store the offers
+	for _, offer := range offers {
 		if c.OffersMgr.AddDHTOffer(&offer) != nil {
 			logging.Error("Internal error in adding single cid offer.")
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From e0da704b92d34c9996ff908fc497f2719aaf0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 38/71] fix: acknowledge only the publications of a list that
 are verified and stored

---
 .../gatewayapi/list_dht_offer_requester.go    | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..f029b4d 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
+	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
@@ -110,16 +111,14 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			continue
 		}
 		// Verify the offers
-		for _, cidOffer := range cidOffers {
-			if cidOffer.Verify(pubKey) != nil {
-				logging.Error("Fail to verify the offer")
-				continue
-			}
-			// Store the offer
-			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
-				logging.Error("Fail to store the offer")
-				continue
-			}
+		if verifyOffers(cidOffers, pubKey) != nil {
+			logging.Error("Fail to verify the offers")
+			continue
+		}
+		// Store the offers
+		if storeOffers(c, cidOffers) != nil {
+			logging.Error("Fail to store the offers")
+			continue
 		}
 
 		// Sign the offer message
@@ -144,3 +143,23 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 
 	return nil, writer.Write(ack, c.Settings.TCPInactivityTimeout)
 }
+
+// verifyOffers checks that every offer is signed with the given key.
+func verifyOffers(offers []cidoffer.CIDOffer, pubKey *fcrcrypto.KeyPair) error {
+	for i := range offers {
+		if err := offers[i].Verify(pubKey); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// storeOffers stores the offers.
+func storeOffers(c *core.Core, offers []cidoffer.CIDOffer) error {
+	for i := range offers {
+		if err := c.OffersMgr.AddDHTOffer(&offers[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 59196b062519ab985bdfc8c33974e907bcd7a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:44 +0000
Subject: [PATCH 39/71] fix: tell providers that group offers are supported
 with the right message

The notification was sent as a request to list offers, with arguments its requester
refuses, so no provider was ever told.
---
 gateway/internal/api/adminapi/set_group_cid_support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..4ce9b75 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -74,12 +74,12 @@ func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegist
 			continue
 		}
 		const thisGatewaySupportsGroupCIDOffer = true
-    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayListDHTOfferRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
+    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
 	}
 }
 
 func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, gatewayID *nodeid.NodeID, thisGatewaySupportsGroupCIDOffer bool) {
-  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, gatewayID, thisGatewaySupportsGroupCIDOffer)
+  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, thisGatewaySupportsGroupCIDOffer)
   if err != nil {
     logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID)
   }
-- 
2.43.0


From fa59dc5bcd9aeccf1794654fc7ad579040f52ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 40/71] fix: count every one of a client's concurrent
 establishment challenges

---
 gateway/internal/reputation/reputation.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..6cb9684 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,9 +56,13 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
+// establishClientReputation initialises the reputation of a Retrieval Client that has none yet
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	r.clientsMapLock.Lock()
+	defer r.clientsMapLock.Unlock()
+	if _, exists := r.clients[clientNodeID.ToString()]; !exists {
+		r.clients[clientNodeID.ToString()] = clientInitialReputation
+	}
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
@@ -82,10 +86,7 @@ func (r *Reputation) GetClientReputation(clientNodeID *nodeid.NodeID) (val int64
 // Establishment Challenge being received. The reputation is created for the Retrival
 // Client if the client doesn't have a reputation yet
 func (r *Reputation) ClientEstablishmentChallenge(clientNodeID *nodeid.NodeID) int64 {
-	_, exists := r.getClientReputation(clientNodeID)
-	if !exists {
-		r.establishClientReputation(clientNodeID)
-	}
+	r.establishClientReputation(clientNodeID)
 	return r.changeClientReputation(clientNodeID, clientEstablishmentChallenge)
 }
 
-- 
2.43.0


From 5d8c261bdac44e581033cfb30086c323e1ea6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 41/71] fix: signing without a key is an error, not a crash

A node that is not initialised yet crashed on the first peer message it had to answer.
---
 common/pkg/fcrcrypto/msg_signing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index fd3251a..0c2ecf0 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -37,6 +37,9 @@ const (
 // SignMessage signs a message using the specified private key.
 // Note that the struct must contain a field "Signature"
 func SignMessage(pKey *KeyPair, keyVersion *KeyVersion, msg []byte) (string, error) {
+	if pKey == nil || keyVersion == nil {
+		return "", errors.New("no key to sign with")
+	}
 	rawSig, err := pKey.Sign(msg)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 737a3fca8dc9f2f9c7bba5f95faf2bcff6cc4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 42/71] fix: refuse payments on a node without a wallet instead
 of crashing

A gateway without a payment manager (not initialised, or initialised with keys only)
crashed when a peer sent it a paid request.
---
 common/pkg/fcrpaymentmgr/payment_manager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index e82b9a7..1e00fd8 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -115,6 +115,9 @@ func NewFCRPaymentMgr(privateKey, lotusAPIAddr, authToken string) (*FCRPaymentMg
 
 // Topup will topup a payment channel to recipient with given amount. (amount of value "1" equals 1 coin)
 func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
+	if mgr == nil {
+		return errors.New("no wallet")
+	}
 	if amount.Sign() < 0 {
 		return errors.New("negative amount")
 	}
@@ -220,6 +223,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 // Pay will generate a voucher and pay the recipient a given amount.
 // Return channel address, voucher, true if needs to top up, and error.
 func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
+	if mgr == nil {
+		return "", "", false, errors.New("no wallet")
+	}
 	if amount.Sign() < 0 {
 		return "", "", false, errors.New("negative amount")
 	}
@@ -288,6 +294,9 @@ func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (s
 // Receive will receive a given voucher at a given payment channel and return the amount received.
 // Amount of 1000000000000000000 means 1 coin received.
 func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, error) {
+	if mgr == nil {
+		return nil, errors.New("no wallet")
+	}
 	// TODO: We can query the lane state from the chain via chain get object,
 	// but don't know how to interpret the result.
 	// It is entirely possible to do validation completely against local storage, just like below.
-- 
2.43.0


From 7fd0174d11d0dfdff93ce3f9c945866c23dbc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:58 +0000
Subject: [PATCH 43/71] fix: a refused initialisation leaves the node as it was

---
 .../internal/api/adminapi/initialise_key_handler_v2.go   | 9 +++++----
 .../internal/api/adminapi/initialise_key_handler_v2.go   | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..5780d77 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,16 +39,17 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	c.GatewayID = nodeID
+	c.GatewayPrivateKey = privKey
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
 
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..b43b214 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,16 +39,17 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	c.ProviderID = nodeID
+	c.ProviderPrivateKey = privKey
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
 
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
-- 
2.43.0


From 80cde5eb540fc60b193ff67a501c16f7480f9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:56 +0000
Subject: [PATCH 44/71] fix: refuse publications on a gateway that is not
 initialised instead of crashing

---
 .../internal/api/providerapi/publish_dht_offer_handler.go    | 5 +++++
 .../internal/api/providerapi/publish_group_offer_handler.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 4614cde..ed34e8d 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -33,6 +33,11 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayID == nil || c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	providerID, nonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..af6e4dd 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -29,6 +29,11 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayID == nil || c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO Add nonce, it looks like nonce is not needed
 	providerID, _, offer, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(request)
 	if err != nil {
-- 
2.43.0


From 3ab66e1088b20aec93c5c6f53d73fd0a49a6abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:58 +0000
Subject: [PATCH 45/71] fix: keep every published single-piece offer, not the
 last one many times

---
 provider/internal/api/adminapi/publish_dht_offer_handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..8e77f8c 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -76,9 +76,9 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	}
 
 	// Add offers
-	for _, offer := range offers {
-		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
-      logging.Error("can't add DHT offer: %v", offer)
+	for i := range offers {
+		if err := c.OffersMgr.AddDHTOffer(&offers[i]); err != nil {
+      logging.Error("can't add DHT offer: %v", offers[i])
     }
 	}
 
-- 
2.43.0


From 933b0852b75ddd6d4a7e07661b3bdb0ad86f0ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:00 +0000
Subject: [PATCH 46/71] fix: record acknowledgements of listed offers never
 acknowledged before

The first such acknowledgement wrote to a missing map and crashed the provider.
---
 .../internal/api/gatewayapi/list_dht_offer_handler.go  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..63128bc 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -127,6 +127,9 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	acknowledgements, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
+	if err != nil {
+		return err
+	}
 	if len(acknowledgements) != len(msgs) {
 		return errors.New("invalid response")
 	}
@@ -150,7 +153,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From 41845aaa0f6e6f4b6971f4e82bce9b861a64a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:02 +0000
Subject: [PATCH 47/71] fix: keep track of the gateways taking group offers

The notification changed a copy of the list and never found a listed gateway.
---
 .../notify_group_cid_offer_supported.go       | 20 +++++++++++--------
 provider/internal/core/core.go                |  3 ++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..fa9b121 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -20,7 +20,6 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
-	"github.com/ConsenSys/fc-retrieval/common/pkg/slice"
 	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
 )
 
@@ -52,7 +51,9 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Lock()
+	c.GroupOfferGatewayIDs = updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Unlock()
 
 	// Construct response
 	response, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
@@ -73,11 +74,13 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	return nil
 }
 
-// updateGatewaysSupportingGroupCIDOffer changes locally stored collection of Gateway IDs supporting Group CID Offer
-func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) {
-	exists, foundIndex, err := slice.Exists(savedGateways, gatewayID)
-	if err != nil {
-		logging.Error("Error while searching for existing gatewayID %v", gatewayID)
+// updateGatewaysSupportingGroupCIDOffer returns the changed collection of Gateway IDs supporting Group CID Offer
+func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) []nodeid.NodeID {
+	exists, foundIndex := false, -1
+	for i := range savedGateways {
+		if savedGateways[i].ToString() == gatewayID.ToString() {
+			exists, foundIndex = true, i
+		}
 	}
 
 	if groupCIDOfferSupported {
@@ -85,7 +88,7 @@ func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGat
 			// add new
 			savedGateways = append(savedGateways, *gatewayID)
 		}
-		return
+		return savedGateways
 	}
 
 	// groupCIDOfferSupported == false
@@ -95,4 +98,5 @@ func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGat
 		savedGateways[foundIndex] = savedGateways[len(savedGateways)-1]
 		savedGateways = savedGateways[:len(savedGateways)-1]
 	}
+	return savedGateways
 }
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..4c5d330 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	AcknowledgementMapLock sync.RWMutex
 
 	// List of Gateways that allow group CID offer to be published
-	GroupOfferGatewayIDs []nodeid.NodeID
+	GroupOfferGatewayIDs     []nodeid.NodeID
+	GroupOfferGatewayIDsLock sync.RWMutex
 }
 
 // Single instance of the provider
-- 
2.43.0


From 2ed245571ddd37b5a40f26c5795ac982df356afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 48/71] fix: sign each acknowledgement of a list of
 publications

---
 gateway/internal/api/gatewayapi/list_dht_offer_requester.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index f029b4d..6c3eeb9 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -130,6 +130,10 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 		if err != nil {
 			return nil, err
 		}
+		// Sign the acknowledgement, it is evidence of its own
+		if cidOfferMsgAck.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion) != nil {
+			return nil, errors.New("error in signing the acknowledgement")
+		}
 		cidOfferMsgAcks = append(cidOfferMsgAcks, *cidOfferMsgAck)
 	}
 	ack, err := fcrmessages.EncodeGatewayListDHTOfferAck(cidOfferMsgAcks)
-- 
2.43.0


From 8a4a323588bb279010ccc2d220eacbcc0489888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 49/71] fix: record only listed acknowledgements that are
 signed themselves

---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 63128bc..1643100 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -134,6 +134,10 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		return errors.New("invalid response")
 	}
 	for i, acknowledgement := range acknowledgements {
+		// The acknowledgement is handed out as evidence, so it has to be signed by itself
+		if acknowledgement.Verify(pubKey) != nil {
+			return errors.New("fail to verify the acknowledgement")
+		}
 		// TODO: Check nonce.
 		_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
 		if err != nil {
-- 
2.43.0


From d4159ac3eb88aba495e30a1fdf6c1839e36d1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 50/71] fix: refuse evidence requests on a provider that is not
 initialised instead of crashing

---
 provider/internal/api/clientapi/dht_offer_ack_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index 1c8d379..a41182e 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -35,6 +35,13 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		s := "This provider hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, gatewayID, err := fcrmessages.DecodeClientDHTOfferAckRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
-- 
2.43.0


From e55eed4142e7d8dc9f7c8ab3a4eab18ee8856289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 51/71] fix: answer a group offer support request as such, and
 only once initialised

---
 gateway/internal/api/adminapi/set_group_cid_support.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index 4ce9b75..ded3ebc 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,14 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
@@ -42,7 +50,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 	c.GroupCIDOfferSupportedForProviders = providerIDs
 
 	// Construct message
-	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
+	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
 	if err != nil {
 		s := "Internal error: Fail to encode message."
 		logging.Error(s + err.Error())
-- 
2.43.0


From f8c9d81326a0a5baae67ba2825da19a4285d02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 52/71] fix: keep a client's score within its limits from any
 assigned score

---
 gateway/internal/reputation/reputation_store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..b48dd2e 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -34,11 +34,11 @@ func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount
 		r.clientsMapLock.Unlock()
 		panic("changeClientReputation for non-existant client: " + clientNodeIDStr)
 	}
-	newVal := val + amount
-	if newVal > clientMaxReputation {
-		newVal = clientMaxReputation
-	} else if newVal < clientMinReputaiton {
+	newVal := clientMaxReputation
+	if val < clientMinReputaiton-amount {
 		newVal = clientMinReputaiton
+	} else if val <= clientMaxReputation-amount {
+		newVal = val + amount
 	}
 
 	r.clients[clientNodeIDStr] = newVal
-- 
2.43.0


From a38521ed56214638897983fe969c151688f09113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 53/71] fix: return from discovery only the offers that verify
 and are for the requested piece

---
 .../pkg/fcrclient/filecoin_retrieval_client.go   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..4a3bee2 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,8 +305,13 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
+	validOffers := make([]cidoffer.SubCIDOffer, 0)
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the requested cid.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -334,9 +339,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 			continue
 		}
 		// Offer pass verification
+		validOffers = append(validOffers, offer)
 		logging.Info("Offer pass every verification, added to result")
 	}
-	return offers, nil
+	return validOffers, nil
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
@@ -390,6 +396,10 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 		}
 		entry := make([]cidoffer.SubCIDOffer, 0)
 		for _, offer := range offers {
+			if offer.GetSubCID().ToString() != contentID.ToString() {
+				logging.Error("Offer is not for the requested cid.")
+				continue
+			}
 			// Get provider's pubkey
 			provider := c.registerMgr.GetProvider(offer.GetProviderID())
 			if provider == nil {
@@ -723,6 +733,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	var validOffers []cidoffer.SubCIDOffer
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the requested cid.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
-- 
2.43.0


From 192144e4ebd56e393331c63fc38805926d0ad0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 54/71] fix: keep the digests of a paid DHT search with the
 gateways that listed them

---
 .../fcrclient/filecoin_retrieval_client.go    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 4a3bee2..597f3cb 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -492,6 +492,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 
 	var addedSubOffersCount int
 	var offersDigestsFromAllGateways [][]string
+	// gateways the digests are from, in the same order
+	var gatewaysWithOffers []nodeid.NodeID
 	for i := 0; i < len(contactedGateways); i++ {
 		contactedGatewayID := contactedGateways[i]
 		resp := contactedResp[i]
@@ -515,16 +517,21 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			logging.Error("Fail to verify sub response.")
 			continue
 		}
-		_, _, found, offerDigests, _, decodedPaymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&resp)
+		pieceCID, _, found, offerDigests, _, decodedPaymentRequired, _, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&resp)
 		if decodeErr != nil {
 			logging.Error("Fail to decode response")
 			continue
 		}
+		if pieceCID.ToString() != contentID.ToString() {
+			logging.Error("Sub response is not for the requested cid.")
+			continue
+		}
 		if decodedPaymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("Gateway: %v has not been paid by the entry gateway.", contactedGatewayID.ToString())
+			continue
 		}
-		if !found {
-			return offersMap, nil
+		if !found || len(offerDigests) == 0 {
+			continue
 		}
 		// comply with given offers number limit
 		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
@@ -532,6 +539,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		}
 
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
+		gatewaysWithOffers = append(gatewaysWithOffers, contactedGatewayID)
 		addedSubOffersCount += len(offerDigests)
 
 		if addedSubOffersCount >= offersNumberLimit {
@@ -545,7 +553,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		unit += len(entry)
 	}
 	if unit == 0 {
-		logging.Warn("have zero offer digests from all gateways, about to pay amount of 0")
+		logging.Warn("have zero offer digests from all gateways")
+		return offersMap, nil
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
@@ -561,7 +570,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, gatewaysWithOffers, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From f3b6f55db3369098dd7c85afe38612b8f95494d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 55/71] fix: verify the offers bought in a paid DHT search,
 each under its gateway

---
 .../clientapi/dht_discover_offer_requester.go | 21 ++++++-
 .../fcrclient/filecoin_retrieval_client.go    | 63 ++++++++++++++++++-
 2 files changed, 80 insertions(+), 4 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..eace85c 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -36,6 +36,8 @@ import (
 type GatewaySubOffers struct {
 	GatewayID *nodeid.NodeID         `json:"gateway_id"`
 	SubOffers []cidoffer.SubCIDOffer `json:"sub_cid_offers"`
+	// Response is the gateway's response the Sub-Offers are from
+	Response *fcrmessages.FCRMessage `json:"-"`
 }
 
 func (c *Client) RequestDHTOfferDiscover(
@@ -70,10 +72,16 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, errors.New("verification failed")
 	}
 
-	_, _, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
+	cID, nonceRecv, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
 	if err != nil {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
 	}
+	if cID.ToString() != contentID.ToString() {
+		return nil, errors.New("CID Mismatch")
+	}
+	if nonce != nonceRecv {
+		return nil, errors.New("nonce mismatch")
+	}
 	if len(gatewayIDs) != len(fcrMessages) {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(gatewayIDs), len(fcrMessages))
 	}
@@ -82,18 +90,25 @@ func (c *Client) RequestDHTOfferDiscover(
 	}
 	var result []GatewaySubOffers
 	for idx, fcrMessage := range fcrMessages {
-		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
+		subCID, subNonce, found, subCIDOffers, _, paymentRequired, _, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
 		if decodeErr != nil {
 			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
+			continue
+		}
+		if subCID.ToString() != contentID.ToString() || subNonce != nonce {
+			logging.Error("gateway DHT discover offer response is not for this request")
+			continue
 		}
 		if paymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("gateway %s has not been paid by the entry gateway", gatewayIDs[idx].ToString())
+			continue
 		}
 		// return first good one
 		if found && len(subCIDOffers) > 0 {
 			gatewaysSubOffers := GatewaySubOffers{
 				GatewayID: &gatewayIDs[idx],
 				SubOffers: subCIDOffers,
+				Response:  &fcrMessages[idx],
 			}
 			result = append(result, gatewaysSubOffers)
 		}
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 597f3cb..287e7a7 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -574,8 +574,69 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
+	returnedSubOffersCount := 0
 	for _, entry := range allGatewaysOffers {
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+		// Verify the sub response
+		// Get gateway's pubkey
+		gateway := c.registerMgr.GetGateway(entry.GatewayID)
+		if gateway == nil {
+			logging.Error("Error in getting gateway info.")
+			continue
+		}
+		if !validateGatewayInfo(gateway) {
+			logging.Error("Gateway register info not valid.")
+			continue
+		}
+		pubKey, signErr := gateway.GetSigningKey()
+		if signErr != nil {
+			logging.Error("Fail to obtain public key.")
+			continue
+		}
+		if entry.Response.Verify(pubKey) != nil {
+			logging.Error("Fail to verify sub response.")
+			continue
+		}
+		validOffers := make([]cidoffer.SubCIDOffer, 0)
+		for _, offer := range entry.SubOffers {
+			if returnedSubOffersCount >= offersNumberLimit {
+				break
+			}
+			if offer.GetSubCID().ToString() != contentID.ToString() {
+				logging.Error("Offer is not for the requested cid.")
+				continue
+			}
+			// Get provider's pubkey
+			provider := c.registerMgr.GetProvider(offer.GetProviderID())
+			if provider == nil {
+				logging.Error("Error getting provider info.")
+				continue
+			}
+			if !validateProviderInfo(provider) {
+				logging.Error("Provider register info not valid.")
+				continue
+			}
+			pubKey, err := provider.GetSigningKey()
+			if err != nil {
+				logging.Error("Fail to obtain public key.")
+				continue
+			}
+			// Verify the offer sig
+			if err = offer.Verify(pubKey); err != nil {
+				logging.Error("Offer signature fail to verify, with error: %v", err)
+				continue
+			}
+			// Now Verify the merkle proof
+			if offer.VerifyMerkleProof() != nil {
+				logging.Error("Merkle proof verification failed.")
+				continue
+			}
+			// Offer pass verification
+			validOffers = append(validOffers, offer)
+			returnedSubOffersCount++
+		}
+		if len(validOffers) > 0 {
+			offersMap[entry.GatewayID.ToString()] = &validOffers
+		}
 	}
 
 	return offersMap, nil
-- 
2.43.0


From 8370771aeac65a399d799ec6ad00f2533895587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 56/71] fix: pay for a DHT search the configured price, and
 only to the entry gateway

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 287e7a7..4df3a22 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -450,7 +450,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
@@ -466,18 +466,18 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	// TODO need to do nonce management
 	nonce := rand.Int63()
 	ttl := time.Now().Unix() + c.Settings.EstablishmentTTL()
-	contactedGateways, contactedResp, uncontactable, paymentRequired, paymentChannel, discoverErr := c.clientApi.RequestDHTDiscoverV2(entryGateway, contentID, nonce, ttl, numDHT, false, paymentChannel, voucher)
+	contactedGateways, contactedResp, uncontactable, paymentRequired, _, discoverErr := c.clientApi.RequestDHTDiscoverV2(entryGateway, contentID, nonce, ttl, numDHT, false, paymentChannel, voucher)
 	if discoverErr != nil {
 		logging.Warn("GatewayDHTDiscovery error. Gateway: %s, Error: %s", entryGateway.GetNodeID(), discoverErr)
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
 		// retry
-		contactedGateways, contactedResp, uncontactable, paymentRequired, paymentChannel, discoverErr = c.clientApi.RequestDHTDiscoverV2(entryGateway, contentID, nonce, ttl, numDHT, false, paymentChannel, voucher)
+		contactedGateways, contactedResp, uncontactable, paymentRequired, _, discoverErr = c.clientApi.RequestDHTDiscoverV2(entryGateway, contentID, nonce, ttl, numDHT, false, paymentChannel, voucher)
 		if discoverErr != nil {
 			logging.Warn("gateway DHT discovery problem; gateway: %s, error: %s", entryGateway.GetNodeID(), discoverErr)
 			return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
-- 
2.43.0


From 575c57a1e6f5833ceedc52d0205198038d033fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 57/71] fix: create the client's payment manager when the first
 search needs it

---
 .../fcrclient/filecoin_retrieval_client.go    | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 4df3a22..bffc48d 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -77,17 +77,15 @@ func NewFilecoinRetrievalClient(settings ClientSettings, registerMgr *fcrregiste
 
 func (c *FilecoinRetrievalClient) PaymentMgr() *fcrpaymentmgr.FCRPaymentMgr {
 	// lazy init
+	c.paymentMgrLock.Lock()
+	defer c.paymentMgrLock.Unlock()
 	if c.paymentMgr == nil {
-		c.paymentMgrLock.Lock()
-		defer c.paymentMgrLock.Unlock()
-		if c.paymentMgr == nil {
-			mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
-			if err != nil {
-				logging.Error("Error initializing payment manager.")
-				return nil
-			}
-			c.paymentMgr = mgr
+		mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
+		if err != nil {
+			logging.Error("Error initializing payment manager.")
+			return nil
 		}
+		c.paymentMgr = mgr
 	}
 
 	return c.paymentMgr
@@ -450,6 +448,9 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
+	if c.PaymentMgr() == nil {
+		return nil, errors.New("payment manager is not available")
+	}
 	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
@@ -736,7 +737,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	if c.PaymentMgr() == nil {
+		return cidOffers, errors.New("payment manager is not available")
+	}
+	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -785,7 +789,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
-- 
2.43.0


From 359820c596f10a5b3014cfc7895bbe012be2c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 58/71] fix: report the failure of a paid purchase, and buy
 nothing when no offer is wanted

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index bffc48d..997441d 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -785,6 +785,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	if len(offerDigests) > maxOffers {
 		offerDigests = offerDigests[:maxOffers]
 	}
+	if len(offerDigests) == 0 {
+		// No offer wanted
+		return cidOffers, nil
+	}
 
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
@@ -803,6 +807,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
+	if err != nil {
+		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
+	}
 
 	var validOffers []cidoffer.SubCIDOffer
 	// Verify the offer one by one
@@ -821,10 +828,6 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			logging.Error("Provider register info not valid.")
 			continue
 		}
-		if err != nil {
-			logging.Error("Offer signature fail to verify 1, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
 		pubKey, err := provider.GetSigningKey()
 		if err != nil {
 			logging.Error("Fail to obtain public key.")
-- 
2.43.0


From 713c9bcd49e95ee5c7d8ea0d1c99ba71044df380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 59/71] fix: judge an acknowledgement only if it is for the cid
 and gateway asked about

---
 client/pkg/api/clientapi/dht_offer_ack_requester.go | 8 +++++++-
 client/pkg/fcrclient/filecoin_retrieval_client.go   | 8 +++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_offer_ack_requester.go b/client/pkg/api/clientapi/dht_offer_ack_requester.go
index f6af663..b10b97c 100644
--- a/client/pkg/api/clientapi/dht_offer_ack_requester.go
+++ b/client/pkg/api/clientapi/dht_offer_ack_requester.go
@@ -55,10 +55,16 @@ func (c *Client) RequestDHTOfferAck(
 		return false, nil, nil, errors.New("verification failed")
 	}
 
-	_, _, found, publishDhtOfferReq, publishDhtOfferRes, err := fcrmessages.DecodeClientDHTOfferAckResponse(response)
+	recvCID, recvGatewayID, found, publishDhtOfferReq, publishDhtOfferRes, err := fcrmessages.DecodeClientDHTOfferAckResponse(response)
 	if err != nil {
 		return false, nil, nil, err
 	}
+	if recvCID.ToString() != contentID.ToString() {
+		return false, nil, nil, errors.New("CID Mismatch")
+	}
+	if recvGatewayID.ToString() != gatewayID.ToString() {
+		return false, nil, nil, errors.New("gateway ID mismatch")
+	}
 
 	return found, publishDhtOfferReq, publishDhtOfferRes, nil
 }
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 997441d..f12e03e 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -700,9 +700,11 @@ func (c *FilecoinRetrievalClient) FindDHTOfferAck(contentID *cid.ContentID, gate
 	}
 	found = false
 	for _, offer := range offers {
-		if offer.GetCIDs()[0].ToString() == contentID.ToString() {
-			found = true
-			break
+		for _, offerCID := range offer.GetCIDs() {
+			if offerCID.ToString() == contentID.ToString() {
+				found = true
+				break
+			}
 		}
 	}
 	if !found {
-- 
2.43.0


From 577d24a74b5ebdb756bdea4e34440bff844fae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 60/71] fix: keep the active gateways among the gateways to
 use, and the counts true, when used concurrently

---
 .../fcrclient/filecoin_retrieval_client.go    | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index f12e03e..d53a72a 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -143,11 +143,14 @@ func (c *FilecoinRetrievalClient) AddGatewaysToUse(gwNodeIDs []*nodeid.NodeID) i
 			logging.Error("Register info not valid.")
 			continue
 		}
-		// Success
+		// Success, unless the gateway has been added in the meantime
 		c.GatewaysToUseLock.Lock()
-		c.GatewaysToUse[gwToAddID.ToString()] = gateway
+		_, exist = c.GatewaysToUse[gwToAddID.ToString()]
+		if !exist {
+			c.GatewaysToUse[gwToAddID.ToString()] = gateway
+			numAdded++
+		}
 		c.GatewaysToUseLock.Unlock()
-		numAdded++
 	}
 	return numAdded
 }
@@ -160,6 +163,10 @@ func (c *FilecoinRetrievalClient) RemoveGatewaysToUse(gwNodeIDs []*nodeid.NodeID
 
 	numRemoved := 0
 	for _, gwToRemoveID := range gwNodeIDs {
+		if gwToRemoveID == nil {
+			logging.Error("can't remove a gateway, a nil was given")
+			continue
+		}
 		_, exist := c.GatewaysToUse[gwToRemoveID.ToString()]
 		if exist {
 			delete(c.GatewaysToUse, gwToRemoveID.ToString())
@@ -211,6 +218,10 @@ func (c *FilecoinRetrievalClient) GetGatewaysToUse() []*nodeid.NodeID {
 func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID) int {
 	numAdded := 0
 	for _, gwToAddID := range gwNodeIDs {
+		if gwToAddID == nil {
+			logging.Error("can't add an active gateway, a nil was given")
+			continue
+		}
 		c.ActiveGatewaysLock.RLock()
 		_, exist := c.ActiveGateways[gwToAddID.ToString()]
 		c.ActiveGatewaysLock.RUnlock()
@@ -233,11 +244,17 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			logging.Error("Error in initial establishment: %v", err.Error())
 			continue
 		}
-		// It is success
+		// It is success, unless the gateway has been removed from gateways to use, or added, in the meantime
+		c.GatewaysToUseLock.RLock()
 		c.ActiveGatewaysLock.Lock()
-		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+		_, usable := c.GatewaysToUse[gwToAddID.ToString()]
+		_, exist = c.ActiveGateways[gwToAddID.ToString()]
+		if usable && !exist {
+			c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+			numAdded++
+		}
 		c.ActiveGatewaysLock.Unlock()
-		numAdded++
+		c.GatewaysToUseLock.RUnlock()
 	}
 	return numAdded
 }
@@ -249,6 +266,10 @@ func (c *FilecoinRetrievalClient) RemoveActiveGateways(gwNodeIDs []*nodeid.NodeI
 
 	numRemoved := 0
 	for _, gwToRemoveID := range gwNodeIDs {
+		if gwToRemoveID == nil {
+			logging.Error("can't remove a gateway, a nil was given")
+			continue
+		}
 		_, exist := c.ActiveGateways[gwToRemoveID.ToString()]
 		if exist {
 			delete(c.ActiveGateways, gwToRemoveID.ToString())
-- 
2.43.0


From 119bf4e4fe9281bc8c8f19ec7d0aabe264b136ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 61/71] fix: find no more gateways than asked for

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index d53a72a..3d84a6a 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -104,6 +104,9 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 	res := make([]*nodeid.NodeID, 0)
 	count := 0
 	for _, info := range gateways {
+		if count >= maxNumToLocate {
+			break
+		}
 		if info.GetRegionCode() == location {
 			nodeID, err := nodeid.NewNodeIDFromHexString(info.GetNodeID())
 			if err != nil {
@@ -112,9 +115,6 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 			}
 			res = append(res, nodeID)
 			count++
-			if count >= maxNumToLocate {
-				break
-			}
 		}
 	}
 	return res, nil
-- 
2.43.0


From 57c4e08db2251fd887647e2d94bd3b5ec83b2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 62/71] fix: refuse vouchers that are under a condition or
 merge lanes

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 1e00fd8..a56d6cf 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -310,6 +310,10 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// A voucher under a condition, or one that merges lanes, may be worth less than its amount
+	if sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || len(sv.SecretPreimage) > 0 || sv.Extra != nil || len(sv.Merges) > 0 {
+		return nil, errors.New("receive voucher method failed, voucher is conditional")
+	}
 	if sv.ChannelAddr != channelAddr {
 		return nil, errors.New("receive voucher method failed, voucher is for a different channel")
 	}
-- 
2.43.0


From c472c5111006ad48f97e816073014d72391e6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 63/71] fix: keep one payment channel per recipient however its
 address is spelled

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index a56d6cf..3ef030c 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -126,6 +126,8 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	if err != nil {
 		return err
 	}
+	// One name per recipient, as an address has several text forms
+	recipient = recipientAddr.String()
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
@@ -233,6 +235,10 @@ func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (s
 	if err != nil {
 		return "", "", false, err
 	}
+	if recipientAddr, err := address.NewFromString(recipient); err == nil {
+		// One name per recipient, as an address has several text forms
+		recipient = recipientAddr.String()
+	}
 	// Get channel state
 	mgr.outboundChsLock.RLock()
 	defer mgr.outboundChsLock.RUnlock()
-- 
2.43.0


From 01fe298cd6df4889f73b87bd4647b6b1932a3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 64/71] fix: report a registration the register refuses as an
 error

---
 common/pkg/request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..3b1192d 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -92,6 +92,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err := r.Body.Close(); err != nil {
 		return err
 	}
+	if r.StatusCode != http.StatusOK {
+		return fmt.Errorf("SendJSON error, got http status: %d", r.StatusCode)
+	}
 	return nil
 }
 
-- 
2.43.0


From 770502271e3db6dce3018c2308c2091c0b48bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 65/71] fix: do not empty the register once more after
 ShutdownAndWait has returned

---
 common/pkg/fcrregistermgr/register_manager.go | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index a895fb7..74bf95f 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -138,13 +138,13 @@ func (mgr *FCRRegisterMgr) ShutdownAndWait() {
 	}
 	if mgr.gatewayDiscv {
 		mgr.shutdownGateways()
-		// stop the main loop
-		mgr.gatewayShutdownCh <- true
+		// stop the main loop, the gateways are removed already
+		mgr.gatewayShutdownCh <- false
 	}
 	if mgr.providerDiscv {
 		mgr.shutdownProviders()
-		// stop the main loop
-		mgr.providerShutdownCh <- true
+		// stop the main loop, the providers are removed already
+		mgr.providerShutdownCh <- false
 	}
 	mgr.start = false
 }
@@ -419,10 +419,12 @@ func (mgr *FCRRegisterMgr) updateGateways() {
 			refreshForce = true
 		case <-afterChan:
 			// Need to refresh
-		case <-mgr.gatewayShutdownCh:
+		case remove := <-mgr.gatewayShutdownCh:
 			// Need to shutdown
 			logging.Info("Register manager shutdown gateway routine.")
-			mgr.shutdownGateways()
+			if remove {
+				mgr.shutdownGateways()
+			}
 			return
 		}
 	}
@@ -473,10 +475,12 @@ func (mgr *FCRRegisterMgr) updateProviders() {
 			refreshForce = true
 		case <-afterChan:
 			// Need to refresh
-		case <-mgr.providerShutdownCh:
+		case remove := <-mgr.providerShutdownCh:
 			// Need to shutdown
 			logging.Info("Register manager shutdown provider routine.")
-			mgr.shutdownProviders()
+			if remove {
+				mgr.shutdownProviders()
+			}
 			return
 		}
 	}
-- 
2.43.0


From 20638108515127bc5ed114d9de645a559bf21ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 66/71] fix: let one key pair be used by many threads

EncodePublicKey, Verify and HashPublicKey of a private key stored the derived
public key in the key pair without any lock: a data race between two users
of the key.
---
 common/pkg/fcrcrypto/keypair_retrieval.go | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index f455e2d..4fa3f2b 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -99,16 +99,22 @@ func decodeSecP256K1PrivateKey(keyBytes []byte) (*KeyPair, error) {
 	return &key, nil
 }
 
+// publicKey returns the public key, derived from the private key when only that is known. The key pair
+// itself is not touched, so one key pair can be used by many threads.
+func (k *KeyPair) publicKey() []byte {
+	if k.pubKey != nil {
+		return k.pubKey
+	}
+	return secp256k1PublicKey(k.pKey)
+}
+
 // EncodePublicKey encodes the algorithm and public key as a hex string.
 func (k *KeyPair) EncodePublicKey() (string, error) {
 	if k.alg.IsNot(SigAlgEcdsaSecP256K1Blake2b) {
 		return "", fmt.Errorf("unsupported key algorithm: %d", k.alg.EncodeSigAlg())
 	}
-	if k.pubKey == nil {
-		k.pubKey = secp256k1PublicKey(k.pKey)
-	}
 	data := k.alg.EncodeSigAlgAsBytes()
-	all := append(data, k.pubKey...)
+	all := append(data, k.publicKey()...)
 	return hex.EncodeToString(all), nil
 }
 
@@ -156,12 +162,9 @@ func (k *KeyPair) Verify(signature, toBeSigned []byte) (bool, error) {
 	if k.alg.IsNot(SigAlgEcdsaSecP256K1Blake2b) {
 		return false, fmt.Errorf("unsupported key algorithm: %d", k.alg.EncodeSigAlg())
 	}
-	if k.pubKey == nil {
-		k.pubKey = secp256k1PublicKey(k.pKey)
-	}
 
 	digest := RetrievalV1Hash(toBeSigned)
-	return secp256k1Verify(k.pubKey, digest, signature), nil
+	return secp256k1Verify(k.publicKey(), digest, signature), nil
 }
 
 // RetrievalV1Verify verifies a signature across some data assuming algorithms
@@ -185,12 +188,8 @@ func (k *KeyPair) HashPublicKey() ([]byte, error) {
 		return nil, fmt.Errorf("unsupported key algorithm: %d", k.alg.EncodeSigAlg())
 	}
 
-	if k.pubKey == nil {
-		k.pubKey = secp256k1PublicKey(k.pKey)
-	}
-
 	data := k.alg.EncodeSigAlgAsBytes()
-	all := append(data, k.pubKey...)
+	all := append(data, k.publicKey()...)
 
 	return RetrievalV1Hash(all), nil
 }
-- 
2.43.0


From cd526613a86d0a73a4468037beabc003af10f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 67/71] fix: do not run at a price or with a timeout that was
 not configured

Only the beginning of a malformed amount was read ("0.001" became 0, so
the node served for free), and negative amounts and intervals that are not
positive were taken over. Fall back to the defaults in these cases.
---
 gateway/config/config.go  | 23 ++++++++++-------------
 provider/config/config.go | 23 ++++++++++-------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/gateway/config/config.go b/gateway/config/config.go
index 435b399..20013ae 100644
--- a/gateway/config/config.go
+++ b/gateway/config/config.go
@@ -5,8 +5,8 @@ package config
 
 import (
   "flag"
-  "fmt"
   "math/big"
+  "strings"
   "time"
 
   "github.com/spf13/pflag"
@@ -29,35 +29,32 @@ func NewConfig() *viper.Viper {
 // Map sets the config for the Gateway. NB: Gateways start without a private key. Private keys are provided by a gateway admin client.
 func Map(conf *viper.Viper) settings.AppSettings {
 	registerRefreshDuration, err := time.ParseDuration(conf.GetString("REGISTER_REFRESH_DURATION"))
-	if err != nil {
+	if err != nil || registerRefreshDuration <= 0 {
 		registerRefreshDuration = settings.DefaultRegisterRefreshDuration
 	}
 	tcpInactivityTimeout, err := time.ParseDuration(conf.GetString("TCP_INACTIVITY_TIMEOUT"))
-	if err != nil {
+	if err != nil || tcpInactivityTimeout <= 0 {
 		tcpInactivityTimeout = settings.DefaultTCPInactivityTimeout
 	}
 	tcpLongInactivityTimeout, err := time.ParseDuration(conf.GetString("TCP_LONG_INACTIVITY_TIMEOUT"))
-	if err != nil {
+	if err != nil || tcpLongInactivityTimeout <= 0 {
 		tcpLongInactivityTimeout = settings.DefaultLongTCPInactivityTimeout
 	}
 
-	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
-	if err != nil {
+	defaultSearchPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("SEARCH_PRICE")), 0)
+	if !ok || defaultSearchPrice.Sign() < 0 {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
-	if err != nil {
+	defaultOfferPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("OFFER_PRICE")), 0)
+	if !ok || defaultOfferPrice.Sign() < 0 {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
-	if err != nil {
+	defaultTopUpAmount, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("TOPUP_AMOUNT")), 0)
+	if !ok || defaultTopUpAmount.Sign() < 0 {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
 	}
diff --git a/provider/config/config.go b/provider/config/config.go
index 4535063..9c7ac14 100644
--- a/provider/config/config.go
+++ b/provider/config/config.go
@@ -5,10 +5,10 @@ package config
 
 import (
 	"flag"
-	"fmt"
 	"log"
 	"math/big"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/spf13/pflag"
@@ -39,35 +39,32 @@ func parseUint8(value string) uint8 {
 // Map sets the config for the Provider. NB: Providers start without a private key. Private keys are provided by a provider admin client.
 func Map(conf *viper.Viper) settings.AppSettings {
 	registerRefreshDuration, err := time.ParseDuration(conf.GetString("REGISTER_REFRESH_DURATION"))
-	if err != nil {
+	if err != nil || registerRefreshDuration <= 0 {
 		registerRefreshDuration = settings.DefaultRegisterRefreshDuration
 	}
 	tcpInactivityTimeout, err := time.ParseDuration(conf.GetString("TCP_INACTIVITY_TIMEOUT"))
-	if err != nil {
+	if err != nil || tcpInactivityTimeout <= 0 {
 		tcpInactivityTimeout = settings.DefaultTCPInactivityTimeout
 	}
 	tcpLongInactivityTimeout, err := time.ParseDuration(conf.GetString("TCP_LONG_INACTIVITY_TIMEOUT"))
-	if err != nil {
+	if err != nil || tcpLongInactivityTimeout <= 0 {
 		tcpLongInactivityTimeout = settings.DefaultLongTCPInactivityTimeout
 	}
 
-	defaultSearchPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("SEARCH_PRICE"), defaultSearchPrice)
-	if err != nil {
+	defaultSearchPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("SEARCH_PRICE")), 0)
+	if !ok || defaultSearchPrice.Sign() < 0 {
 		// defaultSearchPrice is the default search price "0.001".
 		defaultSearchPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultOfferPrice := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("OFFER_PRICE"), defaultOfferPrice)
-	if err != nil {
+	defaultOfferPrice, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("OFFER_PRICE")), 0)
+	if !ok || defaultOfferPrice.Sign() < 0 {
 		// defaultOfferPrice is the default offer price "0.001".
 		defaultOfferPrice = big.NewInt(1_000_000_000_000_000)
 	}
 
-	defaultTopUpAmount := new(big.Int)
-	_, err = fmt.Sscan(conf.GetString("TOPUP_AMOUNT"), defaultTopUpAmount)
-	if err != nil {
+	defaultTopUpAmount, ok := new(big.Int).SetString(strings.TrimSpace(conf.GetString("TOPUP_AMOUNT")), 0)
+	if !ok || defaultTopUpAmount.Sign() < 0 {
 		// defaultTopUpAmount is the default top up amount "0.1".
 		defaultTopUpAmount = big.NewInt(100_000_000_000_000_000)
 	}
-- 
2.43.0


From 7b24b6d9d035f2b1996bca03a7cd4a350169e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 68/71] fix: look at the register at the configured interval

REGISTER_REFRESH_DURATION was read and then ignored.
---
 gateway/cmd/gateway/main.go   | 4 +---
 provider/cmd/provider/main.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/gateway/cmd/gateway/main.go b/gateway/cmd/gateway/main.go
index f4c305a..5dbac95 100644
--- a/gateway/cmd/gateway/main.go
+++ b/gateway/cmd/gateway/main.go
@@ -23,8 +23,6 @@ package main
  */
 
 import (
-	"time"
-
 	_ "github.com/joho/godotenv/autoload"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -55,7 +53,7 @@ func main() {
 	c := core.GetSingleInstance(&appSettings)
 
 	// Initialise a register manager
-	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, true, true, 10*time.Second)
+	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, true, true, appSettings.RegisterRefreshDuration)
 
 	// Create REST Server
 	c.RESTServer = fcrrestserver.NewFCRRESTServer(
diff --git a/provider/cmd/provider/main.go b/provider/cmd/provider/main.go
index f136003..cb79d6b 100644
--- a/provider/cmd/provider/main.go
+++ b/provider/cmd/provider/main.go
@@ -25,8 +25,6 @@ package main
  */
 
 import (
-	"time"
-
 	_ "github.com/joho/godotenv/autoload"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
@@ -57,7 +55,7 @@ func main() {
 	c := core.GetSingleInstance(&appSettings)
 
 	// Initialise a register manager
-	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, false, true, 10*time.Second)
+	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(appSettings.RegisterAPIURL, false, true, appSettings.RegisterRefreshDuration)
 
 	// Create REST Server
 	c.RESTServer = fcrrestserver.NewFCRRESTServer(
-- 
2.43.0


From 23179529663f5a1bb975b30fe5fa8934ff05eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 69/71] fix: refuse clients on a gateway that is not
 initialised instead of crashing

---
 gateway/internal/api/clientapi/dht_discover_handler.go  | 7 +++++++
 gateway/internal/api/clientapi/establishment_handler.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler.go b/gateway/internal/api/clientapi/dht_discover_handler.go
index 00f2989..7af1cf2 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler.go
@@ -37,6 +37,13 @@ func HandleClientDHTCIDDiscoverRequest(w rest.ResponseWriter, request *fcrmessag
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayID == nil || c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/establishment_handler.go b/gateway/internal/api/clientapi/establishment_handler.go
index ff9fb13..967eb5e 100644
--- a/gateway/internal/api/clientapi/establishment_handler.go
+++ b/gateway/internal/api/clientapi/establishment_handler.go
@@ -31,6 +31,13 @@ func HandleClientEstablishmentRequest(w rest.ResponseWriter, request *fcrmessage
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayID == nil || c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	clientID, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
-- 
2.43.0


From fd2568b41246e1840216613d88d842e05fe474a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 70/71] fix: stop on a fatal error or panic also when it is not
 logged

---
 common/pkg/logging/logging.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/logging/logging.go b/common/pkg/logging/logging.go
index c973619..f0541df 100644
--- a/common/pkg/logging/logging.go
+++ b/common/pkg/logging/logging.go
@@ -19,6 +19,7 @@ package logging
  */
 
 import (
+	"fmt"
 	"io"
 	"os"
 	"path"
@@ -131,12 +132,16 @@ func Error(msg string, args ...interface{}) {
 	log.Error().Msgf(msg, args...)
 }
 
+// Fatal logs the message and exits, also when its level is not logged
 func Fatal(msg string, args ...interface{}) {
 	log.Fatal().Msgf(msg, args...)
+	os.Exit(1)
 }
 
+// Panic logs the message and panics, also when its level is not logged
 func Panic(msg string, args ...interface{}) {
 	log.Panic().Msgf(msg, args...)
+	panic(fmt.Sprintf(msg, args...))
 }
 
 // ErrorAndPanic is now deprecated. It is equivalent to Panic.
-- 
2.43.0


From b5d6b2bf4e793c0210388ba10f92fcfa4b24246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 71/71] fix: understand log levels as documented: upper case,
 NONE, and INFO when none is given

---
 common/pkg/logging/logging.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/common/pkg/logging/logging.go b/common/pkg/logging/logging.go
index f0541df..6a0e4cc 100644
--- a/common/pkg/logging/logging.go
+++ b/common/pkg/logging/logging.go
@@ -19,10 +19,12 @@ package logging
  */
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
 	"path"
+	"strings"
 	"time"
 
 	"github.com/rs/zerolog"
@@ -52,7 +54,7 @@ func Init1(logLevel string, logTarget string, logServiceName string) zerolog.Log
 
 func setLogLevel(conf *viper.Viper) {
 	logLevel := conf.GetString("LOG_LEVEL")
-	level, err := zerolog.ParseLevel(logLevel)
+	level, err := parseLogLevel(logLevel)
 	if err != nil {
 		log.Error().Err(err).Msg("can't parse log level")
 		level = zerolog.InfoLevel
@@ -61,6 +63,18 @@ func setLogLevel(conf *viper.Viper) {
 	zerolog.SetGlobalLevel(level)
 }
 
+// parseLogLevel understands the level names in upper or lower case, and NONE for no logging
+func parseLogLevel(logLevel string) (zerolog.Level, error) {
+	if logLevel == "" {
+		return zerolog.NoLevel, errors.New("no log level given")
+	}
+	name := strings.ToLower(logLevel)
+	if name == "none" {
+		return zerolog.Disabled, nil
+	}
+	return zerolog.ParseLevel(name)
+}
+
 func setTimeFormat(conf *viper.Viper) {
 	format := conf.GetString("LOG_TIME_FORMAT")
 	switch format {
@@ -104,7 +118,7 @@ func newLogTargetFile(conf *viper.Viper) io.Writer {
 }
 
 func SetLogLevel(logLevel string) {
-	level, err := zerolog.ParseLevel(logLevel)
+	level, err := parseLogLevel(logLevel)
 	if err != nil {
 		log.Error().Err(err).Str("level", logLevel).Msg("can't parse log level")
 	} else {
-- 
2.43.0

