package props

import mp4 "github.com/abema/go-mp4"

// c23types are the four-character codes that the type functions stand for.
var c23types = []struct {
	name string
	f    func() mp4.BoxType
	code string
}{
	{"BoxTypeAv01", mp4.BoxTypeAv01, "av01"},
	{"BoxTypeAv1C", mp4.BoxTypeAv1C, "av1C"},
	{"BoxTypeAC3", mp4.BoxTypeAC3, "ac-3"},
	{"BoxTypeDAC3", mp4.BoxTypeDAC3, "dac3"},
	{"BoxTypeBtrt", mp4.BoxTypeBtrt, "btrt"},
	{"BoxTypeCo64", mp4.BoxTypeCo64, "co64"},
	{"BoxTypeColr", mp4.BoxTypeColr, "colr"},
	{"BoxTypeCslg", mp4.BoxTypeCslg, "cslg"},
	{"BoxTypeCtts", mp4.BoxTypeCtts, "ctts"},
	{"BoxTypeDinf", mp4.BoxTypeDinf, "dinf"},
	{"BoxTypeDref", mp4.BoxTypeDref, "dref"},
	{"BoxTypeUrl", mp4.BoxTypeUrl, "url "},
	{"BoxTypeUrn", mp4.BoxTypeUrn, "urn "},
	{"BoxTypeEdts", mp4.BoxTypeEdts, "edts"},
	{"BoxTypeElst", mp4.BoxTypeElst, "elst"},
	{"BoxTypeEmsg", mp4.BoxTypeEmsg, "emsg"},
	{"BoxTypeFiel", mp4.BoxTypeFiel, "fiel"},
	{"BoxTypeFree", mp4.BoxTypeFree, "free"},
	{"BoxTypeSkip", mp4.BoxTypeSkip, "skip"},
	{"BoxTypeFrma", mp4.BoxTypeFrma, "frma"},
	{"BoxTypeFtyp", mp4.BoxTypeFtyp, "ftyp"},
	{"BoxTypeHdlr", mp4.BoxTypeHdlr, "hdlr"},
	{"BoxTypeHvcC", mp4.BoxTypeHvcC, "hvcC"},
	{"BoxTypeMdat", mp4.BoxTypeMdat, "mdat"},
	{"BoxTypeMdhd", mp4.BoxTypeMdhd, "mdhd"},
	{"BoxTypeMdia", mp4.BoxTypeMdia, "mdia"},
	{"BoxTypeMehd", mp4.BoxTypeMehd, "mehd"},
	{"BoxTypeMeta", mp4.BoxTypeMeta, "meta"},
	{"BoxTypeMfhd", mp4.BoxTypeMfhd, "mfhd"},
	{"BoxTypeMfra", mp4.BoxTypeMfra, "mfra"},
	{"BoxTypeMfro", mp4.BoxTypeMfro, "mfro"},
	{"BoxTypeMinf", mp4.BoxTypeMinf, "minf"},
	{"BoxTypeMoof", mp4.BoxTypeMoof, "moof"},
	{"BoxTypeMoov", mp4.BoxTypeMoov, "moov"},
	{"BoxTypeMvex", mp4.BoxTypeMvex, "mvex"},
	{"BoxTypeMvhd", mp4.BoxTypeMvhd, "mvhd"},
	{"BoxTypeSaio", mp4.BoxTypeSaio, "saio"},
	{"BoxTypeSaiz", mp4.BoxTypeSaiz, "saiz"},
	{"BoxTypeMp4v", mp4.BoxTypeMp4v, "mp4v"},
	{"BoxTypeAvc1", mp4.BoxTypeAvc1, "avc1"},
	{"BoxTypeEncv", mp4.BoxTypeEncv, "encv"},
	{"BoxTypeHev1", mp4.BoxTypeHev1, "hev1"},
	{"BoxTypeHvc1", mp4.BoxTypeHvc1, "hvc1"},
	{"BoxTypeMp4a", mp4.BoxTypeMp4a, "mp4a"},
	{"BoxTypeEnca", mp4.BoxTypeEnca, "enca"},
	{"BoxTypeAvcC", mp4.BoxTypeAvcC, "avcC"},
	{"BoxTypePasp", mp4.BoxTypePasp, "pasp"},
	{"BoxTypeStpp", mp4.BoxTypeStpp, "stpp"},
	{"BoxTypeSbtt", mp4.BoxTypeSbtt, "sbtt"},
	{"BoxTypeSbgp", mp4.BoxTypeSbgp, "sbgp"},
	{"BoxTypeSchi", mp4.BoxTypeSchi, "schi"},
	{"BoxTypeSchm", mp4.BoxTypeSchm, "schm"},
	{"BoxTypeSdtp", mp4.BoxTypeSdtp, "sdtp"},
	{"BoxTypeSgpd", mp4.BoxTypeSgpd, "sgpd"},
	{"BoxTypeSidx", mp4.BoxTypeSidx, "sidx"},
	{"BoxTypeSinf", mp4.BoxTypeSinf, "sinf"},
	{"BoxTypeSmhd", mp4.BoxTypeSmhd, "smhd"},
	{"BoxTypeStbl", mp4.BoxTypeStbl, "stbl"},
	{"BoxTypeStco", mp4.BoxTypeStco, "stco"},
	{"BoxTypeStsc", mp4.BoxTypeStsc, "stsc"},
	{"BoxTypeStsd", mp4.BoxTypeStsd, "stsd"},
	{"BoxTypeStss", mp4.BoxTypeStss, "stss"},
	{"BoxTypeStsz", mp4.BoxTypeStsz, "stsz"},
	{"BoxTypeStts", mp4.BoxTypeStts, "stts"},
	{"BoxTypeStyp", mp4.BoxTypeStyp, "styp"},
	{"BoxTypeTfdt", mp4.BoxTypeTfdt, "tfdt"},
	{"BoxTypeTfhd", mp4.BoxTypeTfhd, "tfhd"},
	{"BoxTypeTfra", mp4.BoxTypeTfra, "tfra"},
	{"BoxTypeTkhd", mp4.BoxTypeTkhd, "tkhd"},
	{"BoxTypeTraf", mp4.BoxTypeTraf, "traf"},
	{"BoxTypeTrak", mp4.BoxTypeTrak, "trak"},
	{"BoxTypeTrep", mp4.BoxTypeTrep, "trep"},
	{"BoxTypeTrex", mp4.BoxTypeTrex, "trex"},
	{"BoxTypeTrun", mp4.BoxTypeTrun, "trun"},
	{"BoxTypeUdta", mp4.BoxTypeUdta, "udta"},
	{"BoxTypeVmhd", mp4.BoxTypeVmhd, "vmhd"},
	{"BoxTypeWave", mp4.BoxTypeWave, "wave"},
	{"BoxTypeEsds", mp4.BoxTypeEsds, "esds"},
	{"BoxTypeVttC", mp4.BoxTypeVttC, "vttC"},
	{"BoxTypeVlab", mp4.BoxTypeVlab, "vlab"},
	{"BoxTypeWvtt", mp4.BoxTypeWvtt, "wvtt"},
	{"BoxTypeVttc", mp4.BoxTypeVttc, "vttc"},
	{"BoxTypeVsid", mp4.BoxTypeVsid, "vsid"},
	{"BoxTypeCtim", mp4.BoxTypeCtim, "ctim"},
	{"BoxTypeIden", mp4.BoxTypeIden, "iden"},
	{"BoxTypeSttg", mp4.BoxTypeSttg, "sttg"},
	{"BoxTypePayl", mp4.BoxTypePayl, "payl"},
	{"BoxTypeVtte", mp4.BoxTypeVtte, "vtte"},
	{"BoxTypeVtta", mp4.BoxTypeVtta, "vtta"},
	{"BoxTypeIpcm", mp4.BoxTypeIpcm, "ipcm"},
	{"BoxTypeFpcm", mp4.BoxTypeFpcm, "fpcm"},
	{"BoxTypePcmC", mp4.BoxTypePcmC, "pcmC"},
	{"BoxTypePssh", mp4.BoxTypePssh, "pssh"},
	{"BoxTypeTenc", mp4.BoxTypeTenc, "tenc"},
	{"BoxTypeIlst", mp4.BoxTypeIlst, "ilst"},
	{"BoxTypeData", mp4.BoxTypeData, "data"},
	{"BoxTypeKeys", mp4.BoxTypeKeys, "keys"},
	{"BoxTypeOpus", mp4.BoxTypeOpus, "Opus"},
	{"BoxTypeDOps", mp4.BoxTypeDOps, "dOps"},
	{"BoxTypeVp08", mp4.BoxTypeVp08, "vp08"},
	{"BoxTypeVp09", mp4.BoxTypeVp09, "vp09"},
	{"BoxTypeVpcC", mp4.BoxTypeVpcC, "vpcC"},
}
