// Code generated by tools/mkregistry.sh. DO NOT EDIT.

package h

// All lists the harnesses by name.
var All = map[string]func(){
	"HAccept":              HAccept,
	"HActive":              HActive,
	"HAlarmHost":           HAlarmHost,
	"HAlarms":              HAlarms,
	"HAnyBytes":            HAnyBytes,
	"HAnything":            HAnything,
	"HAttempts":            HAttempts,
	"HBackoff":             HBackoff,
	"HBinaryConstructors":  HBinaryConstructors,
	"HChannel":             HChannel,
	"HChannelRace":         HChannelRace,
	"HClockSet":            HClockSet,
	"HClockShow":           HClockShow,
	"HCommand":             HCommand,
	"HCommandHost":         HCommandHost,
	"HCommunication":       HCommunication,
	"HConstantInfo":        HConstantInfo,
	"HConstants":           HConstants,
	"HControl":             HControl,
	"HControlHeader":       HControlHeader,
	"HDecodeAny":           HDecodeAny,
	"HDecodeBody":          HDecodeBody,
	"HDecodeItem":          HDecodeItem,
	"HDecodeLength":        HDecodeLength,
	"HDecodeNested":        HDecodeNested,
	"HDefine":              HDefine,
	"HDeque":               HDeque,
	"HDequeSeq":            HDequeSeq,
	"HDequeStream":         HDequeStream,
	"HDial":                HDial,
	"HEnable":              HEnable,
	"HEncodeIncomplete":    HEncodeIncomplete,
	"HEncodeItem":          HEncodeItem,
	"HEncodeLong":          HEncodeLong,
	"HErrorCallback":       HErrorCallback,
	"HEventHost":           HEventHost,
	"HEventInside":         HEventInside,
	"HEvents":              HEvents,
	"HFillEllipsis":        HFillEllipsis,
	"HFillLeaf":            HFillLeaf,
	"HFillList":            HFillList,
	"HFillMessage":         HFillMessage,
	"HFixAnnounced":        HFixAnnounced,
	"HFixLarge":            HFixLarge,
	"HFixReceive":          HFixReceive,
	"HFixSend":             HFixSend,
	"HFixSendWide":         HFixSendWide,
	"HFloatConstructors":   HFloatConstructors,
	"HFrameSend":           HFrameSend,
	"HFrameSenders":        HFrameSenders,
	"HFrames":              HFrames,
	"HFramesLong":          HFramesLong,
	"HGet":                 HGet,
	"HGetValue":            HGetValue,
	"HHostRaces":           HHostRaces,
	"HHostReentry":         HHostReentry,
	"HIdle":                HIdle,
	"HIntConstructors":     HIntConstructors,
	"HLink":                HLink,
	"HLinkRaces":           HLinkRaces,
	"HManager":             HManager,
	"HManagerRace":         HManagerRace,
	"HMessageChange":       HMessageChange,
	"HMessageNew":          HMessageNew,
	"HModel":               HModel,
	"HModelRace":           HModelRace,
	"HOnline":              HOnline,
	"HOperator":            HOperator,
	"HOtherConstructors":   HOtherConstructors,
	"HPassive":             HPassive,
	"HPrimaries":           HPrimaries,
	"HPrograms":            HPrograms,
	"HProgramsHost":        HProgramsHost,
	"HRaces":               HRaces,
	"HReconnect":           HReconnect,
	"HReentry":             HReentry,
	"HRegister":            HRegister,
	"HRejectFrom":          HRejectFrom,
	"HReport":              HReport,
	"HRequestAlarms":       HRequestAlarms,
	"HRequestChange":       HRequestChange,
	"HRequestNames":        HRequestNames,
	"HRequestReport":       HRequestReport,
	"HRequestValues":       HRequestValues,
	"HRequests":            HRequests,
	"HRoles":               HRoles,
	"HRoundTripHeaderOnly": HRoundTripHeaderOnly,
	"HRoundTripItem":       HRoundTripItem,
	"HRoundTripLong":       HRoundTripLong,
	"HSends":               HSends,
	"HServer":              HServer,
	"HServerStop":          HServerStop,
	"HSessionHistory":      HSessionHistory,
	"HSessionRace":         HSessionRace,
	"HSessionReentry":      HSessionReentry,
	"HSmlASCII":            HSmlASCII,
	"HSmlFloat":            HSmlFloat,
	"HSmlHeader":           HSmlHeader,
	"HSmlInteger":          HSmlInteger,
	"HSmlLayout":           HSmlLayout,
	"HSmlNumber":           HSmlNumber,
	"HSmlQuoted":           HSmlQuoted,
	"HSmlSeveral":          HSmlSeveral,
	"HSmlSize":             HSmlSize,
	"HSmlTemplate":         HSmlTemplate,
	"HSmlText":             HSmlText,
	"HStatus":              HStatus,
	"HT7":                  HT7,
	"HTextConstructors":    HTextConstructors,
	"HTrace":               HTrace,
	"HTraceOptions":        HTraceOptions,
	"HTraceTogether":       HTraceTogether,
	"HUnhandled":           HUnhandled,
	"HWaiters":             HWaiters,
}
