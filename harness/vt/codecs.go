package vt

// Code generated once from the list of message kinds; edit by hand if the protocol grows.

import fm "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

// Codec is one kind of protocol message.
type Codec struct {
	Name           string
	Type           int32
	Encode, Decode interface{}
}

// Codecs lists every kind of protocol message.
var Codecs = []Codec{
	{"InvalidMessageResponse", fm.InvalidMessageResponseType, fm.EncodeInvalidMessageResponse, fm.DecodeInvalidMessageResponse},
	{"ProtocolChangeRequest", fm.ProtocolChangeRequestType, fm.EncodeProtocolChangeRequest, fm.DecodeProtocolChangeRequest},
	{"ProtocolChangeResponse", fm.ProtocolChangeResponseType, fm.EncodeProtocolChangeResponse, fm.DecodeProtocolChangeResponse},
	{"ClientDHTDiscoverOfferRequest", fm.ClientDHTDiscoverOfferRequestType, fm.EncodeClientDHTDiscoverOfferRequest, fm.DecodeClientDHTDiscoverOfferRequest},
	{"ClientDHTDiscoverOfferResponse", fm.ClientDHTDiscoverOfferResponseType, fm.EncodeClientDHTDiscoverOfferResponse, fm.DecodeClientDHTDiscoverOfferResponse},
	{"ClientDHTDiscoverRequest", fm.ClientDHTDiscoverRequestType, fm.EncodeClientDHTDiscoverRequest, fm.DecodeClientDHTDiscoverRequest},
	{"ClientDHTDiscoverRequestV2", fm.ClientDHTDiscoverRequestV2Type, fm.EncodeClientDHTDiscoverRequestV2, fm.DecodeClientDHTDiscoverRequestV2},
	{"ClientDHTDiscoverResponse", fm.ClientDHTDiscoverResponseType, fm.EncodeClientDHTDiscoverResponse, fm.DecodeClientDHTDiscoverResponse},
	{"ClientDHTDiscoverResponseV2", fm.ClientDHTDiscoverResponseV2Type, fm.EncodeClientDHTDiscoverResponseV2, fm.DecodeClientDHTDiscoverResponseV2},
	{"ClientDHTOfferAckRequest", fm.ClientDHTOfferAckRequestType, fm.EncodeClientDHTOfferAckRequest, fm.DecodeClientDHTOfferAckRequest},
	{"ClientDHTOfferAckResponse", fm.ClientDHTOfferAckResponseType, fm.EncodeClientDHTOfferAckResponse, fm.DecodeClientDHTOfferAckResponse},
	{"ClientEstablishmentRequest", fm.ClientEstablishmentRequestType, fm.EncodeClientEstablishmentRequest, fm.DecodeClientEstablishmentRequest},
	{"ClientEstablishmentResponse", fm.ClientEstablishmentResponseType, fm.EncodeClientEstablishmentResponse, fm.DecodeClientEstablishmentResponse},
	{"ClientStandardDiscoverOfferRequest", fm.ClientStandardDiscoverOfferRequestType, fm.EncodeClientStandardDiscoverOfferRequest, fm.DecodeClientStandardDiscoverOfferRequest},
	{"ClientStandardDiscoverOfferResponse", fm.ClientStandardDiscoverOfferResponseType, fm.EncodeClientStandardDiscoverOfferResponse, fm.DecodeClientStandardDiscoverOfferResponse},
	{"ClientStandardDiscoverRequest", fm.ClientStandardDiscoverRequestType, fm.EncodeClientStandardDiscoverRequest, fm.DecodeClientStandardDiscoverRequest},
	{"ClientStandardDiscoverRequestV2", fm.ClientStandardDiscoverRequestV2Type, fm.EncodeClientStandardDiscoverRequestV2, fm.DecodeClientStandardDiscoverRequestV2},
	{"ClientStandardDiscoverResponse", fm.ClientStandardDiscoverResponseType, fm.EncodeClientStandardDiscoverResponse, fm.DecodeClientStandardDiscoverResponse},
	{"ClientStandardDiscoverResponseV2", fm.ClientStandardDiscoverResponseV2Type, fm.EncodeClientStandardDiscoverResponseV2, fm.DecodeClientStandardDiscoverResponseV2},
	{"GatewayDHTDiscoverOfferRequest", fm.GatewayDHTDiscoverOfferRequestType, fm.EncodeGatewayDHTDiscoverOfferRequest, fm.DecodeGatewayDHTDiscoverOfferRequest},
	{"GatewayDHTDiscoverOfferResponse", fm.GatewayDHTDiscoverOfferResponseType, fm.EncodeGatewayDHTDiscoverOfferResponse, fm.DecodeGatewayDHTDiscoverOfferResponse},
	{"GatewayDHTDiscoverRequest", fm.GatewayDHTDiscoverRequestType, fm.EncodeGatewayDHTDiscoverRequest, fm.DecodeGatewayDHTDiscoverRequest},
	{"GatewayDHTDiscoverRequestV2", fm.GatewayDHTDiscoverRequestV2Type, fm.EncodeGatewayDHTDiscoverRequestV2, fm.DecodeGatewayDHTDiscoverRequestV2},
	{"GatewayDHTDiscoverResponse", fm.GatewayDHTDiscoverResponseType, fm.EncodeGatewayDHTDiscoverResponse, fm.DecodeGatewayDHTDiscoverResponse},
	{"GatewayDHTDiscoverResponseV2", fm.GatewayDHTDiscoverResponseV2Type, fm.EncodeGatewayDHTDiscoverResponseV2, fm.DecodeGatewayDHTDiscoverResponseV2},
	{"GatewayListDHTOfferAck", fm.GatewayListDHTOfferAckType, fm.EncodeGatewayListDHTOfferAck, fm.DecodeGatewayListDHTOfferAck},
	{"GatewayListDHTOfferRequest", fm.GatewayListDHTOfferRequestType, fm.EncodeGatewayListDHTOfferRequest, fm.DecodeGatewayListDHTOfferRequest},
	{"GatewayListDHTOfferResponse", fm.GatewayListDHTOfferResponseType, fm.EncodeGatewayListDHTOfferResponse, fm.DecodeGatewayListDHTOfferResponse},
	{"GatewayNotifyProviderGroupCIDOfferSupportRequest", fm.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, fm.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest, fm.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest},
	{"GatewayNotifyProviderGroupCIDOfferSupportResponse", fm.GatewayNotifyProviderGroupCIDOfferSupportedResponseType, fm.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse, fm.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse},
	{"GatewayPingRequest", fm.GatewayPingRequestType, fm.EncodeGatewayPingRequest, fm.DecodeGatewayPingRequest},
	{"GatewayPingResponse", fm.GatewayPingResponseType, fm.EncodeGatewayPingResponse, fm.DecodeGatewayPingResponse},
	{"GatewayAdminForceRefreshRequest", fm.GatewayAdminForceRefreshRequestType, fm.EncodeGatewayAdminForceRefreshRequest, fm.DecodeGatewayAdminForceRefreshRequest},
	{"GatewayAdminForceRefreshResponse", fm.GatewayAdminForceRefreshResponseType, fm.EncodeGatewayAdminForceRefreshResponse, fm.DecodeGatewayAdminForceRefreshResponse},
	{"GatewayAdminGetReputationRequest", fm.GatewayAdminGetReputationRequestType, fm.EncodeGatewayAdminGetReputationRequest, fm.DecodeGatewayAdminGetReputationRequest},
	{"GatewayAdminGetReputationResponse", fm.GatewayAdminGetReputationResponseType, fm.EncodeGatewayAdminGetReputationResponse, fm.DecodeGatewayAdminGetReputationResponse},
	{"GatewayAdminInitialiseKeyRequest", fm.GatewayAdminInitialiseKeyRequestType, fm.EncodeGatewayAdminInitialiseKeyRequest, fm.DecodeGatewayAdminInitialiseKeyRequest},
	{"GatewayAdminInitialiseKeyRequestV2", fm.GatewayAdminInitialiseKeyRequestV2Type, fm.EncodeGatewayAdminInitialiseKeyRequestV2, fm.DecodeGatewayAdminInitialiseKeyRequestV2},
	{"GatewayAdminInitialiseKeyResponse", fm.GatewayAdminInitialiseKeyResponseType, fm.EncodeGatewayAdminInitialiseKeyResponse, fm.DecodeGatewayAdminInitialiseKeyResponse},
	{"GatewayAdminListDHTOfferRequest", fm.GatewayAdminListDHTOfferRequestType, fm.EncodeGatewayAdminListDHTOfferRequest, fm.DecodeGatewayAdminListDHTOfferRequest},
	{"GatewayAdminListDHTOfferResponse", fm.GatewayAdminListDHTOfferResponseType, fm.EncodeGatewayAdminListDHTOfferResponse, fm.DecodeGatewayAdminListDHTOfferResponse},
	{"GatewayAdminSetReputationRequest", fm.GatewayAdminSetReputationRequestType, fm.EncodeGatewayAdminSetReputationRequest, fm.DecodeGatewayAdminSetReputationRequest},
	{"GatewayAdminSetReputationResponse", fm.GatewayAdminSetReputationResponseType, fm.EncodeGatewayAdminSetReputationResponse, fm.DecodeGatewayAdminSetReputationResponse},
	{"UpdateGatewayGroupCIDOfferSupportRequest", fm.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType, fm.EncodeUpdateGatewayGroupCIDOfferSupportRequest, fm.DecodeUpdateGatewayGroupCIDOfferSupportRequest},
	{"UpdateGatewayGroupCIDOfferSupportResponse", fm.GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType, fm.EncodeUpdateGatewayGroupCIDOfferSupportResponse, fm.DecodeUpdateGatewayGroupCIDOfferSupportResponse},
	{"ProviderPublishDHTOfferRequest", fm.ProviderPublishDHTOfferRequestType, fm.EncodeProviderPublishDHTOfferRequest, fm.DecodeProviderPublishDHTOfferRequest},
	{"ProviderPublishDHTOfferResponse", fm.ProviderPublishDHTOfferResponseType, fm.EncodeProviderPublishDHTOfferResponse, fm.DecodeProviderPublishDHTOfferResponse},
	{"ProviderPublishGroupOfferRequest", fm.ProviderPublishGroupOfferRequestType, fm.EncodeProviderPublishGroupOfferRequest, fm.DecodeProviderPublishGroupOfferRequest},
	{"ProviderPublishGroupOfferResponse", fm.ProviderPublishGroupOfferResponseType, fm.EncodeProviderPublishGroupOfferResponse, fm.DecodeProviderPublishGroupOfferResponse},
	{"ProviderAdminForceRefreshRequest", fm.ProviderAdminForceRefreshRequestType, fm.EncodeProviderAdminForceRefreshRequest, fm.DecodeProviderAdminForceRefreshRequest},
	{"ProviderAdminForceRefreshResponse", fm.ProviderAdminForceRefreshResponseType, fm.EncodeProviderAdminForceRefreshResponse, fm.DecodeProviderAdminForceRefreshResponse},
	{"ProviderAdminGetPublishedOfferRequest", fm.ProviderAdminGetPublishedOfferRequestType, fm.EncodeProviderAdminGetPublishedOfferRequest, fm.DecodeProviderAdminGetPublishedOfferRequest},
	{"ProviderAdminGetPublishedOfferResponse", fm.ProviderAdminGetPublishedOfferResponseType, fm.EncodeProviderAdminGetPublishedOfferResponse, fm.DecodeProviderAdminGetPublishedOfferResponse},
	{"ProviderAdminInitialiseKeyRequest", fm.ProviderAdminInitialiseKeyRequestType, fm.EncodeProviderAdminInitialiseKeyRequest, fm.DecodeProviderAdminInitialiseKeyRequest},
	{"ProviderAdminInitialiseKeyRequestV2", fm.ProviderAdminInitialiseKeyRequestV2Type, fm.EncodeProviderAdminInitialiseKeyRequestV2, fm.DecodeProviderAdminInitialiseKeyRequestV2},
	{"ProviderAdminInitialiseKeyResponse", fm.ProviderAdminInitialiseKeyResponseType, fm.EncodeProviderAdminInitialiseKeyResponse, fm.DecodeProviderAdminInitialiseKeyResponse},
	{"ProviderAdminPublishDHTOfferRequest", fm.ProviderAdminPublishDHTOfferRequestType, fm.EncodeProviderAdminPublishDHTOfferRequest, fm.DecodeProviderAdminPublishDHTOfferRequest},
	{"ProviderAdminPublishDHTOfferResponse", fm.ProviderAdminPublishDHTOfferResponseType, fm.EncodeProviderAdminPublishDHTOfferResponse, fm.DecodeProviderAdminPublishDHTOfferResponse},
	{"ProviderAdminPublishGroupOfferRequest", fm.ProviderAdminPublishGroupOfferRequestType, fm.EncodeProviderAdminPublishGroupOfferRequest, fm.DecodeProviderAdminPublishGroupOfferRequest},
	{"ProviderAdminPublishGroupOfferResponse", fm.ProviderAdminPublishGroupOfferResponseType, fm.EncodeProviderAdminPublishGroupOfferResponse, fm.DecodeProviderAdminPublishGroupOfferResponse},
}
