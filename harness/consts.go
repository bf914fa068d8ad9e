package main

import "github.com/Eyevinn/dash-mpd/mpd"

// The named constants and what the standards (ISO/IEC 23009-1, DASH-IF identifiers, ETSI TS 102 366 and
// 103 190-2, ANSI/SCTE 35 Table 23, ANSI/SCTE 214-1) say.

type constant struct {
	name      string
	got, want any
}

var dashConstants = []constant{
	{"STATIC_TYPE", mpd.STATIC_TYPE, "static"},
	{"DYNAMIC_TYPE", mpd.DYNAMIC_TYPE, "dynamic"},
	{"LIST_TYPE", mpd.LIST_TYPE, "list"},
	{"PROFILE_FULL", mpd.PROFILE_FULL, "urn:mpeg:dash:profile:full:2011"},
	{"PROFILE_ONDEMAND", mpd.PROFILE_ONDEMAND, "urn:mpeg:dash:profile:isoff-on-demand:2011"},
	{"PROFILE_LIVE", mpd.PROFILE_LIVE, "urn:mpeg:dash:profile:isoff-live:2011"},
	{"PROFILE_MAIN", mpd.PROFILE_MAIN, "urn:mpeg:dash:profile:isoff-main:2011"},
	{"PROFILE_MPEG_TS_MAIN", mpd.PROFILE_MPEG_TS_MAIN, "urn:mpeg:dash:profile:mp2t-main:2011"},
	{"PROFILE_MPEG_TS_SIMPLE", mpd.PROFILE_MPEG_TS_SIMPLE, "urn:mpeg:dash:profile:mp2t-simple:2011"},
	{"PROFILE_EXT_LIVE", mpd.PROFILE_EXT_LIVE, "urn:mpeg:dash:profile:isoff-ext-live:2014"},
	{"PROFILE_EXT_ONDEMAND", mpd.PROFILE_EXT_ONDEMAND, "urn:mpeg:dash:profile:isoff-ext-on-demand:2014"},
	{"PROFILE_COMMON", mpd.PROFILE_COMMON, "urn:mpeg:dash:profile:isoff-common:2014"},
	{"PROFILE_BROADCAST", mpd.PROFILE_BROADCAST, "urn:mpeg:dash:profile:isoff-broadcast:2015"},
	{"PROFILE_CMAF", mpd.PROFILE_CMAF, "urn:mpeg:dash:profile:cmaf:2019"},
	{"PROFILE_ADVANCED_LINEAR", mpd.PROFILE_ADVANCED_LINEAR, "urn:mpeg:dash:profile:advanced-linear:2025"},
	{"PROFILE_LIST", mpd.PROFILE_LIST, "urn:mpeg:dash:profile:list:2024"},
	{"PROFILE_SINGLE_PERIOD", mpd.PROFILE_SINGLE_PERIOD, "urn:mpeg:dash:profile:sps:2024"},
	{"DASH_NAMESPACE", mpd.DASH_NAMESPACE, "urn:mpeg:dash:schema:mpd:2011"},
	{"AUDIO_CHANNEL_CONFIGURATION_CICP", mpd.AUDIO_CHANNEL_CONFIGURATION_CICP, "urn:mpeg:mpegB:cicp:ChannelConfiguration"},
	{"AUDIO_CHANNEL_CONFIGURATION_MPEG_DASH", mpd.AUDIO_CHANNEL_CONFIGURATION_MPEG_DASH, "urn:mpeg:dash:23003:3:audio_channel_configuration:2011"},
	{"AUDIO_CHANNEL_CONFIGURATION_DOLBY", mpd.AUDIO_CHANNEL_CONFIGURATION_DOLBY, "tag:dolby.com,2014:dash:audio_channel_configuration:2011"},
	{"AUDIO_CHANNEL_CONFIGURATION_DOLBY_2015", mpd.AUDIO_CHANNEL_CONFIGURATION_DOLBY_2015, "tag:dolby.com,2015:dash:audio_channel_configuration:2015"},
	{"MIME_TYPE_VIDEO_MP4", mpd.MIME_TYPE_VIDEO_MP4, "video/mp4"},
	{"MIME_TYPE_AUDIO_MP4", mpd.MIME_TYPE_AUDIO_MP4, "audio/mp4"},
	{"MIME_TYPE_SUBTITLE_VTT", mpd.MIME_TYPE_SUBTITLE_VTT, "text/vtt"},
	{"MIME_TYPE_TTML", mpd.MIME_TYPE_TTML, "application/ttml+xml"},
	{"DRM_CLEAR_KEY_DASHIF", mpd.DRM_CLEAR_KEY_DASHIF, "urn:uuid:e2719d58-a985-b3c9-781a-b030af78d30e"},
	{"DRM_PLAYREADY", mpd.DRM_PLAYREADY, "urn:uuid:9a04f079-9840-4286-ab92-e65be0885f95"},
	{"DRM_WIDEVINE", mpd.DRM_WIDEVINE, "urn:uuid:edef8ba9-79d6-4ace-a3c8-27dcd51d21ed"},
	{"DRM_MARLIN", mpd.DRM_MARLIN, "urn:uuid:5E629AF5-38DA-4063-8977-97FFBD9902D4"},
	{"UrlParameterNamespace2014", mpd.UrlParameterNamespace2014, "urn:mpeg:dash:schema:urlparam:2014"},
	{"UrlParameterNamespace2016", mpd.UrlParameterNamespace2016, "urn:mpeg:dash:schema:urlparam:2016"},
	{"UrlParameterNamespace2025", mpd.UrlParameterNamespace2025, "urn:mpeg:dash:schema:urlparam:2025"},
	{"AUDIO_CHANNEL_CONFIGURATION_MPEG_DOLBY", mpd.AUDIO_CHANNEL_CONFIGURATION_MPEG_DOLBY, "tag:dolby.com,2014:dash:audio_channel_configuration:2011"},
}

var scteConstants = []constant{
	{"SCTE214Namespace", mpd.SCTE214Namespace, "urn:scte:dash:scte214-extensions"},
	{"SCTE214Namespace2021", mpd.SCTE214Namespace2021, "urn:scte:dash:2021"},
	{"SCTE214SchemeIdAssetIdUpid", mpd.SCTE214SchemeIdAssetIdUpid, "urn:scte:dash:asset-id:upid:2015"},
	{"SCTE214SchemeIdCEA608", mpd.SCTE214SchemeIdCEA608, "urn:scte:dash:cc:cea-608:2015"},
	{"SCTE214SchemeIdCEA708", mpd.SCTE214SchemeIdCEA708, "urn:scte:dash:cc:cea-708:2015"},
	{"SCTE214SchemeIdAssociatedService", mpd.SCTE214SchemeIdAssociatedService, "urn:scte:dash:associated-service:2015"},
	{"SCTE214SchemeIdEssentialEvent", mpd.SCTE214SchemeIdEssentialEvent, "urn:scte:dash:essential-event:2015"},
	{"SCTE214SchemeIdAssetEnd", mpd.SCTE214SchemeIdAssetEnd, "urn:scte:dash:asset-end"},
	{"SCTE214SchemeIdAssetTime", mpd.SCTE214SchemeIdAssetTime, "urn:scte:dash:asset-time"},
	{"SCTE214SchemeIdUTCTime", mpd.SCTE214SchemeIdUTCTime, "urn:scte:dash:utc-time"},
	{"SCTE214SchemeIdPoweredBy", mpd.SCTE214SchemeIdPoweredBy, "urn:scte:dash:powered-by:2016"},
	{"SCTE214SchemeIdGenerationInfo", mpd.SCTE214SchemeIdGenerationInfo, "urn:scte:dash:generation-info:2016"},
	{"SCTE214SchemeIdGenerationRequest", mpd.SCTE214SchemeIdGenerationRequest, "urn:scte:dash:generation-request:2016"},
	{"SCTE214SchemeIdDefaultLanguage", mpd.SCTE214SchemeIdDefaultLanguage, "urn:scte:dash:default-language"},
	{"SCTE214SchemeIdIFrameTrack", mpd.SCTE214SchemeIdIFrameTrack, "urn:scte:dash:i-frame-track:2021"},
	{"SCTE214SchemeIdSegmentModel", mpd.SCTE214SchemeIdSegmentModel, "urn:scte:dash:segment-model:2024"},
	{"SCTE35Namespace", mpd.SCTE35Namespace, "http://www.scte.org/schemas/35"},
	{"SCTE35Namespace2016", mpd.SCTE35Namespace2016, "http://www.scte.org/schemas/35/2016"},
	{"SCTE35SchemeIdXML", mpd.SCTE35SchemeIdXML, "urn:scte:scte35:2013:xml"},
	{"SCTE35SchemeIdXMLBin", mpd.SCTE35SchemeIdXMLBin, "urn:scte:scte35:2014:xml+bin"},
	{"SCTE35SchemeIdBin", mpd.SCTE35SchemeIdBin, "urn:scte:scte35:2013:bin"},
	{"SegTypeNotIndicated", mpd.SegTypeNotIndicated, uint8(0x00)},
	{"SegTypeContentIdentification", mpd.SegTypeContentIdentification, uint8(0x01)},
	{"SegTypeProgramStart", mpd.SegTypeProgramStart, uint8(0x10)},
	{"SegTypeProgramEnd", mpd.SegTypeProgramEnd, uint8(0x11)},
	{"SegTypeProgramEarlyTermination", mpd.SegTypeProgramEarlyTermination, uint8(0x12)},
	{"SegTypeProgramBreakaway", mpd.SegTypeProgramBreakaway, uint8(0x13)},
	{"SegTypeProgramResumption", mpd.SegTypeProgramResumption, uint8(0x14)},
	{"SegTypeProgramRunoverPlanned", mpd.SegTypeProgramRunoverPlanned, uint8(0x15)},
	{"SegTypeProgramRunoverUnplanned", mpd.SegTypeProgramRunoverUnplanned, uint8(0x16)},
	{"SegTypeProgramOverlapStart", mpd.SegTypeProgramOverlapStart, uint8(0x17)},
	{"SegTypeProgramBlackoutOverride", mpd.SegTypeProgramBlackoutOverride, uint8(0x18)},
	{"SegTypeProgramJoin", mpd.SegTypeProgramJoin, uint8(0x19)},
	{"SegTypeChapterStart", mpd.SegTypeChapterStart, uint8(0x20)},
	{"SegTypeChapterEnd", mpd.SegTypeChapterEnd, uint8(0x21)},
	{"SegTypeBreakStart", mpd.SegTypeBreakStart, uint8(0x22)},
	{"SegTypeBreakEnd", mpd.SegTypeBreakEnd, uint8(0x23)},
	{"SegTypeOpeningCreditStart", mpd.SegTypeOpeningCreditStart, uint8(0x24)},
	{"SegTypeOpeningCreditEnd", mpd.SegTypeOpeningCreditEnd, uint8(0x25)},
	{"SegTypeClosingCreditStart", mpd.SegTypeClosingCreditStart, uint8(0x26)},
	{"SegTypeClosingCreditEnd", mpd.SegTypeClosingCreditEnd, uint8(0x27)},
	{"SegTypeProviderAdvertisementStart", mpd.SegTypeProviderAdvertisementStart, uint8(0x30)},
	{"SegTypeProviderAdvertisementEnd", mpd.SegTypeProviderAdvertisementEnd, uint8(0x31)},
	{"SegTypeDistributorAdvertisementStart", mpd.SegTypeDistributorAdvertisementStart, uint8(0x32)},
	{"SegTypeDistributorAdvertisementEnd", mpd.SegTypeDistributorAdvertisementEnd, uint8(0x33)},
	{"SegTypeProviderPlacementOpportunityStart", mpd.SegTypeProviderPlacementOpportunityStart, uint8(0x34)},
	{"SegTypeProviderPlacementOpportunityEnd", mpd.SegTypeProviderPlacementOpportunityEnd, uint8(0x35)},
	{"SegTypeDistributorPlacementOpportunityStart", mpd.SegTypeDistributorPlacementOpportunityStart, uint8(0x36)},
	{"SegTypeDistributorPlacementOpportunityEnd", mpd.SegTypeDistributorPlacementOpportunityEnd, uint8(0x37)},
	{"SegTypeProviderOverlayPlacementOpportunityStart", mpd.SegTypeProviderOverlayPlacementOpportunityStart, uint8(0x38)},
	{"SegTypeProviderOverlayPlacementOpportunityEnd", mpd.SegTypeProviderOverlayPlacementOpportunityEnd, uint8(0x39)},
	{"SegTypeDistributorOverlayPlacementOpportunityStart", mpd.SegTypeDistributorOverlayPlacementOpportunityStart, uint8(0x3A)},
	{"SegTypeDistributorOverlayPlacementOpportunityEnd", mpd.SegTypeDistributorOverlayPlacementOpportunityEnd, uint8(0x3B)},
	{"SegTypeProviderPromoStart", mpd.SegTypeProviderPromoStart, uint8(0x3C)},
	{"SegTypeProviderPromoEnd", mpd.SegTypeProviderPromoEnd, uint8(0x3D)},
	{"SegTypeDistributorPromoStart", mpd.SegTypeDistributorPromoStart, uint8(0x3E)},
	{"SegTypeDistributorPromoEnd", mpd.SegTypeDistributorPromoEnd, uint8(0x3F)},
	{"SegTypeUnscheduledEventStart", mpd.SegTypeUnscheduledEventStart, uint8(0x40)},
	{"SegTypeUnscheduledEventEnd", mpd.SegTypeUnscheduledEventEnd, uint8(0x41)},
	{"SegTypeAlternateContentOpportunityStart", mpd.SegTypeAlternateContentOpportunityStart, uint8(0x42)},
	{"SegTypeAlternateContentOpportunityEnd", mpd.SegTypeAlternateContentOpportunityEnd, uint8(0x43)},
	{"SegTypeProviderAdBlockStart", mpd.SegTypeProviderAdBlockStart, uint8(0x44)},
	{"SegTypeProviderAdBlockEnd", mpd.SegTypeProviderAdBlockEnd, uint8(0x45)},
	{"SegTypeDistributorAdBlockStart", mpd.SegTypeDistributorAdBlockStart, uint8(0x46)},
	{"SegTypeDistributorAdBlockEnd", mpd.SegTypeDistributorAdBlockEnd, uint8(0x47)},
	{"SegTypeNetworkStart", mpd.SegTypeNetworkStart, uint8(0x50)},
	{"SegTypeNetworkEnd", mpd.SegTypeNetworkEnd, uint8(0x51)},
}

func judgeConstants(c *Ctx, list []constant) {
	c.Serial("constants", len(list), func(t *T) {
		k := list[t.Idx]
		if k.got != k.want {
			t.Failf("constants", "%s is %v, want %v", k.name, k.got, k.want)
		}
		t.Obs("constants compared")
	})
}
