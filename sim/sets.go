package main

import (
	"encoding/json"
	"sort"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// Parameter sets that use the whole syntax, written from H.264 7.3.2.1, H.265 7.3.2.2 and AV1 5.5. The structures of
// the library hold the values; nothing of it is used to write them.

// dump renders a parameter set.
func dump(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return strings.ReplaceAll(string(b), "[]", "null")
}

// cutRBSP returns a parameter set with less bits than its fields need.
func (e *Env) cutRBSP(head, rbsp []byte, need int) []byte {
	all := (need + 7) / 8
	n := e.N(all)
	if e.P(1, 3) {
		n = max(0, all-1-e.N(8))
	}
	out := append([]byte(nil), head...)
	if len(head) > 0 && head[0] != 8 { // not AV1
		return append(out, epb(rbsp[:n])...)
	}
	return append(out, rbsp[:n]...)
}

func (e *Env) wide(usual int) uint32 {
	switch e.W(8, 2, 1) {
	case 0:
		return uint32(e.N(usual))
	case 1:
		return uint32(e.N(1 << uint(1+e.N(31))))
	}
	return 0xFFFFFFFE - uint32(e.N(3))
}

func (e *Env) wideS(usual int) int32 {
	v := int64(e.wide(usual))
	if v > 0x7FFFFFFF {
		v >>= 1
	}
	if e.P(1, 2) {
		v = -v
	}
	return int32(v)
}

func (e *Env) b() bool { return e.P(1, 2) }

// H264

func (e *Env) fullH264SPS() *h264.SPS {
	s := &h264.SPS{}
	s.ProfileIdc = []byte{66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}[e.W(3, 3, 1, 6, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
	s.ConstraintSet0Flag, s.ConstraintSet1Flag, s.ConstraintSet2Flag = e.b(), e.b(), e.b()
	s.ConstraintSet3Flag, s.ConstraintSet4Flag, s.ConstraintSet5Flag = e.b(), e.b(), e.b()
	s.LevelIdc = []byte{30, 10, 11, 40, 51, 62, 9}[e.N(7)]
	if e.P(1, 3) {
		s.ID = uint32(e.N(32))
	}
	s.ChromaFormatIdc = 1
	if isHigh(s.ProfileIdc) {
		s.ChromaFormatIdc = uint32(e.W(1, 4, 1, 2))
		if s.ChromaFormatIdc == 3 {
			s.SeparateColourPlaneFlag = e.b()
		}
		s.BitDepthLumaMinus8, s.BitDepthChromaMinus8 = uint32(e.N(7)), uint32(e.N(7))
		s.QpprimeYZeroTransformBypassFlag = e.b()
	}
	s.Log2MaxFrameNumMinus4 = uint32(e.N(13))
	s.PicOrderCntType = uint32(e.N(3))
	switch s.PicOrderCntType {
	case 0:
		s.Log2MaxPicOrderCntLsbMinus4 = uint32(e.N(13))
	case 1:
		s.DeltaPicOrderAlwaysZeroFlag = e.b()
		s.OffsetForNonRefPic, s.OffsetForTopToBottomField = e.wideS(10), e.wideS(10)
		n := e.N(4)
		if e.P(1, 10) {
			n = 255
		}
		for ; n > 0; n-- {
			s.OffsetForRefFrames = append(s.OffsetForRefFrames, e.wideS(10))
		}
	}
	s.MaxNumRefFrames = uint32(e.N(17))
	s.GapsInFrameNumValueAllowedFlag = e.b()
	s.PicWidthInMbsMinus1, s.PicHeightInMapUnitsMinus1 = uint32(e.N(512)), uint32(e.N(256))
	s.FrameMbsOnlyFlag = e.P(2, 3)
	if !s.FrameMbsOnlyFlag {
		s.MbAdaptiveFrameFieldFlag = e.b()
	}
	s.Direct8x8InferenceFlag = e.b()
	if e.P(1, 2) {
		s.FrameCropping = &h264.SPS_FrameCropping{LeftOffset: uint32(e.N(3)), RightOffset: uint32(e.N(3)), TopOffset: uint32(e.N(2)), BottomOffset: uint32(e.N(2))}
	}
	if e.P(2, 3) {
		s.VUI = e.fullH264VUI()
	}
	return s
}

func (e *Env) fullH264VUI() *h264.SPS_VUI {
	v := &h264.SPS_VUI{}
	if v.AspectRatioInfoPresentFlag = e.b(); v.AspectRatioInfoPresentFlag {
		v.AspectRatioIdc = uint8(e.N(17))
		if e.P(1, 3) {
			v.AspectRatioIdc = 255
			v.SarWidth, v.SarHeight = uint16(e.N(65536)), uint16(e.N(65536))
		}
	}
	if v.OverscanInfoPresentFlag = e.b(); v.OverscanInfoPresentFlag {
		v.OverscanAppropriateFlag = e.b()
	}
	if v.VideoSignalTypePresentFlag = e.b(); v.VideoSignalTypePresentFlag {
		v.VideoFormat, v.VideoFullRangeFlag = uint8(e.N(8)), e.b()
		if v.ColourDescriptionPresentFlag = e.b(); v.ColourDescriptionPresentFlag {
			v.ColourPrimaries, v.TransferCharacteristics, v.MatrixCoefficients = uint8(e.N(256)), uint8(e.N(256)), uint8(e.N(256))
		}
	}
	if v.ChromaLocInfoPresentFlag = e.b(); v.ChromaLocInfoPresentFlag {
		v.ChromaSampleLocTypeTopField, v.ChromaSampleLocTypeBottomField = uint32(e.N(6)), uint32(e.N(6))
	}
	if e.b() {
		v.TimingInfo = &h264.SPS_TimingInfo{NumUnitsInTick: 1 + e.wide(2000), TimeScale: 1 + e.wide(180000), FixedFrameRateFlag: e.b()}
	}
	hrd := func() *h264.SPS_HRD {
		h := &h264.SPS_HRD{BitRateScale: uint8(e.N(16)), CpbSizeScale: uint8(e.N(16)), InitialCpbRemovalDelayLengthMinus1: uint8(e.N(32)),
			CpbRemovalDelayLengthMinus1: uint8(e.N(32)), DpbOutputDelayLengthMinus1: uint8(e.N(32)), TimeOffsetLength: uint8(e.N(32))}
		h.CpbCntMinus1 = uint32(e.W(4, 1, 1))
		if e.P(1, 10) {
			h.CpbCntMinus1 = uint32(e.N(32))
		}
		for i := uint32(0); i <= h.CpbCntMinus1; i++ {
			h.BitRateValueMinus1 = append(h.BitRateValueMinus1, e.wide(100000))
			h.CpbSizeValueMinus1 = append(h.CpbSizeValueMinus1, e.wide(100000))
			h.CbrFlag = append(h.CbrFlag, e.b())
		}
		return h
	}
	if e.P(1, 3) {
		v.NalHRD = hrd()
	}
	if e.P(1, 3) {
		v.VclHRD = hrd()
	}
	if v.NalHRD != nil || v.VclHRD != nil {
		v.LowDelayHrdFlag = e.b()
	}
	v.PicStructPresentFlag = e.b()
	if e.b() {
		v.BitstreamRestriction = &h264.SPS_BitstreamRestriction{MotionVectorsOverPicBoundariesFlag: e.b(), MaxBytesPerPicDenom: uint32(e.N(17)),
			MaxBitsPerMbDenom: uint32(e.N(17)), Log2MaxMvLengthHorizontal: uint32(e.N(17)), Log2MaxMvLengthVertical: uint32(e.N(17)),
			MaxNumReorderFrames: uint32(e.N(17)), MaxDecFrameBuffering: uint32(e.N(17))}
	}
	return v
}

// writeH264SPS writes a set; the scaling lists are drawn here.
func (e *Env) writeH264SPS(s *h264.SPS) (head, rbsp []byte, need int) {
	w := &bitw{}
	w.bits(uint64(s.ProfileIdc), 8)
	for _, f := range []bool{s.ConstraintSet0Flag, s.ConstraintSet1Flag, s.ConstraintSet2Flag, s.ConstraintSet3Flag, s.ConstraintSet4Flag, s.ConstraintSet5Flag} {
		w.flag(f)
	}
	w.bits(0, 2)
	w.bits(uint64(s.LevelIdc), 8)
	w.ue(s.ID)
	if isHigh(s.ProfileIdc) {
		w.ue(s.ChromaFormatIdc)
		if s.ChromaFormatIdc == 3 {
			w.flag(s.SeparateColourPlaneFlag)
		}
		w.ue(s.BitDepthLumaMinus8)
		w.ue(s.BitDepthChromaMinus8)
		w.flag(s.QpprimeYZeroTransformBypassFlag)
		lists := e.P(1, 3)
		w.flag(lists)
		if lists {
			n := 8
			if s.ChromaFormatIdc == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				pr := e.P(1, 3)
				w.flag(pr)
				if !pr {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				list, def := e.writeScalingList(w, size)
				if i < 6 {
					s.ScalingList4x4 = append(s.ScalingList4x4, list)
					s.UseDefaultScalingMatrix4x4Flag = append(s.UseDefaultScalingMatrix4x4Flag, def)
				} else {
					s.ScalingList8x8 = append(s.ScalingList8x8, list)
					s.UseDefaultScalingMatrix8x8Flag = append(s.UseDefaultScalingMatrix8x8Flag, def)
				}
			}
		}
	}
	w.ue(s.Log2MaxFrameNumMinus4)
	w.ue(s.PicOrderCntType)
	switch s.PicOrderCntType {
	case 0:
		w.ue(s.Log2MaxPicOrderCntLsbMinus4)
	case 1:
		w.flag(s.DeltaPicOrderAlwaysZeroFlag)
		w.se(s.OffsetForNonRefPic)
		w.se(s.OffsetForTopToBottomField)
		w.ue(uint32(len(s.OffsetForRefFrames)))
		for _, v := range s.OffsetForRefFrames {
			w.se(v)
		}
	}
	w.ue(s.MaxNumRefFrames)
	w.flag(s.GapsInFrameNumValueAllowedFlag)
	w.ue(s.PicWidthInMbsMinus1)
	w.ue(s.PicHeightInMapUnitsMinus1)
	w.flag(s.FrameMbsOnlyFlag)
	if !s.FrameMbsOnlyFlag {
		w.flag(s.MbAdaptiveFrameFieldFlag)
	}
	w.flag(s.Direct8x8InferenceFlag)
	w.flag(s.FrameCropping != nil)
	if c := s.FrameCropping; c != nil {
		w.ue(c.LeftOffset)
		w.ue(c.RightOffset)
		w.ue(c.TopOffset)
		w.ue(c.BottomOffset)
	}
	w.flag(s.VUI != nil)
	if v := s.VUI; v != nil {
		w.vuiHead(v.AspectRatioInfoPresentFlag, v.AspectRatioIdc, v.SarWidth, v.SarHeight, v.OverscanInfoPresentFlag, v.OverscanAppropriateFlag,
			v.VideoSignalTypePresentFlag, v.VideoFormat, v.VideoFullRangeFlag, v.ColourDescriptionPresentFlag, v.ColourPrimaries,
			v.TransferCharacteristics, v.MatrixCoefficients, v.ChromaLocInfoPresentFlag, v.ChromaSampleLocTypeTopField, v.ChromaSampleLocTypeBottomField)
		w.flag(v.TimingInfo != nil)
		if t := v.TimingInfo; t != nil {
			w.bits(uint64(t.NumUnitsInTick), 32)
			w.bits(uint64(t.TimeScale), 32)
			w.flag(t.FixedFrameRateFlag)
		}
		for _, h := range []*h264.SPS_HRD{v.NalHRD, v.VclHRD} {
			w.flag(h != nil)
			if h == nil {
				continue
			}
			w.ue(h.CpbCntMinus1)
			w.bits(uint64(h.BitRateScale), 4)
			w.bits(uint64(h.CpbSizeScale), 4)
			for i := range h.CbrFlag {
				w.ue(h.BitRateValueMinus1[i])
				w.ue(h.CpbSizeValueMinus1[i])
				w.flag(h.CbrFlag[i])
			}
			w.bits(uint64(h.InitialCpbRemovalDelayLengthMinus1), 5)
			w.bits(uint64(h.CpbRemovalDelayLengthMinus1), 5)
			w.bits(uint64(h.DpbOutputDelayLengthMinus1), 5)
			w.bits(uint64(h.TimeOffsetLength), 5)
		}
		if v.NalHRD != nil || v.VclHRD != nil {
			w.flag(v.LowDelayHrdFlag)
		}
		w.flag(v.PicStructPresentFlag)
		w.flag(v.BitstreamRestriction != nil)
		if r := v.BitstreamRestriction; r != nil {
			w.flag(r.MotionVectorsOverPicBoundariesFlag)
			for _, v := range []uint32{r.MaxBytesPerPicDenom, r.MaxBitsPerMbDenom, r.Log2MaxMvLengthHorizontal, r.Log2MaxMvLengthVertical,
				r.MaxNumReorderFrames, r.MaxDecFrameBuffering} {
				w.ue(v)
			}
		}
	}
	need = w.n
	w.trail()
	return []byte{byte(1+e.N(3))<<5 | 7}, w.b, need
}

// writeScalingList writes scaling_list() (H.264 7.3.2.1.1.1) and returns what it means.
func (e *Env) writeScalingList(w *bitw, size int) (list []int32, def bool) {
	last := 8
	stop := e.N(size + 1)
	if e.P(1, 2) {
		stop = size
	}
	for j := 0; j < size; j++ {
		next := 1 + e.N(255)
		if j == stop {
			next = 0
		}
		d := (next - last) & 255
		if d > 127 {
			d -= 256
		}
		w.se(int32(d))
		if next == 0 { // the rest repeats the last value
			def = j == 0
			for ; j < size; j++ {
				list = append(list, int32(last))
			}
			return
		}
		list = append(list, int32(next))
		last = next
	}
	return
}

func (w *bitw) vuiHead(ar bool, idc uint8, sw, sh uint16, oi, oa, vs bool, vf uint8, fr, cd bool, cp, tc, mc uint8, cl bool, ct, cb uint32) {
	w.flag(ar)
	if ar {
		w.bits(uint64(idc), 8)
		if idc == 255 {
			w.bits(uint64(sw), 16)
			w.bits(uint64(sh), 16)
		}
	}
	w.flag(oi)
	if oi {
		w.flag(oa)
	}
	w.flag(vs)
	if vs {
		w.bits(uint64(vf), 3)
		w.flag(fr)
		w.flag(cd)
		if cd {
			w.bits(uint64(cp), 8)
			w.bits(uint64(tc), 8)
			w.bits(uint64(mc), 8)
		}
	}
	w.flag(cl)
	if cl {
		w.ue(ct)
		w.ue(cb)
	}
}

func sizeH264(s *h264.SPS) (int, int) {
	f := 2 - b2i(s.FrameMbsOnlyFlag)
	w, h := 16*(int(s.PicWidthInMbsMinus1)+1), 16*f*(int(s.PicHeightInMapUnitsMinus1)+1)
	x, y := 1, 1
	if !s.SeparateColourPlaneFlag {
		switch s.ChromaFormatIdc {
		case 1:
			x, y = 2, 2
		case 2:
			x = 2
		}
	}
	if c := s.FrameCropping; c != nil {
		w -= x * int(c.LeftOffset+c.RightOffset)
		h -= y * f * int(c.TopOffset+c.BottomOffset)
	}
	return w, h
}

// H265

func (e *Env) fullH265SPS() *h265.SPS {
	s := &h265.SPS{}
	s.VPSID = uint8(e.N(16))
	if e.P(1, 3) {
		s.MaxSubLayersMinus1 = uint8(e.N(7))
	}
	s.TemporalIDNestingFlag = s.MaxSubLayersMinus1 == 0 || e.b()
	p := &s.ProfileTierLevel
	p.GeneralTierFlag = uint8(e.N(2))
	p.GeneralProfileIdc = uint8([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}[e.N(11)])
	p.GeneralProfileCompatibilityFlag[p.GeneralProfileIdc] = true
	for e.P(1, 3) {
		p.GeneralProfileCompatibilityFlag[e.N(32)] = true
	}
	ext, bit14 := p.GeneralProfileIdc >= 4, false
	for i := 4; i <= 11; i++ {
		ext = ext || p.GeneralProfileCompatibilityFlag[i]
	}
	for _, i := range []int{5, 9, 10, 11} {
		bit14 = bit14 || p.GeneralProfileCompatibilityFlag[i]
	}
	p.GeneralProgressiveSourceFlag, p.GeneralInterlacedSourceFlag = e.b(), e.b()
	p.GeneralNonPackedConstraintFlag, p.GeneralFrameOnlyConstraintFlag = e.b(), e.b()
	if ext {
		p.GeneralMax12bitConstraintFlag, p.GeneralMax10bitConstraintFlag, p.GeneralMax8bitConstraintFlag = e.b(), e.b(), e.b()
		p.GeneralMax422ChromeConstraintFlag, p.GeneralMax420ChromaConstraintFlag, p.GeneralMaxMonochromeConstraintFlag = e.b(), e.b(), e.b()
		p.GeneralIntraConstraintFlag, p.GeneralOnePictureOnlyConstraintFlag, p.GeneralLowerBitRateConstraintFlag = e.b(), e.b(), e.b()
		p.GeneralMax14BitConstraintFlag = bit14 && e.b()
	} else if p.GeneralProfileIdc == 2 {
		p.GeneralOnePictureOnlyConstraintFlag = e.b()
	}
	p.GeneralLevelIdc = []byte{93, 30, 120, 153, 186}[e.N(5)]
	n := int(s.MaxSubLayersMinus1)
	for i := 0; i < n; i++ {
		p.SubLayerProfilePresentFlag = append(p.SubLayerProfilePresentFlag, e.exoticSets && e.P(1, 4))
		p.SubLayerLevelPresentFlag = append(p.SubLayerLevelPresentFlag, e.exoticSets && e.P(1, 4))
	}
	s.ID = uint8(e.N(16))
	s.ChromaFormatIdc = uint32(e.W(1, 4, 1, 2))
	if s.ChromaFormatIdc == 3 {
		s.SeparateColourPlaneFlag = e.b()
	}
	s.PicWidthInLumaSamples, s.PicHeightInLumaSamples = uint32(8*(2+e.N(1022))), uint32(8*(2+e.N(1022)))
	if e.P(1, 2) {
		s.ConformanceWindow = &h265.SPS_Window{LeftOffset: uint32(e.N(3)), RightOffset: uint32(e.N(3)), TopOffset: uint32(e.N(3)), BottomOffset: uint32(e.N(3))}
	}
	s.BitDepthLumaMinus8, s.BitDepthChromaMinus8 = uint32(e.N(8)), uint32(e.N(8))
	s.Log2MaxPicOrderCntLsbMinus4 = uint32(e.N(13))
	s.SubLayerOrderingInfoPresentFlag = e.b()
	for i := 0; i <= n; i++ {
		s.MaxDecPicBufferingMinus1 = append(s.MaxDecPicBufferingMinus1, uint32(e.N(16)))
		s.MaxNumReorderPics = append(s.MaxNumReorderPics, uint32(e.N(16)))
		s.MaxLatencyIncreasePlus1 = append(s.MaxLatencyIncreasePlus1, e.wide(10))
	}
	s.Log2MinLumaCodingBlockSizeMinus3, s.Log2DiffMaxMinLumaCodingBlockSize = uint32(e.N(4)), uint32(e.N(4))
	s.Log2MinLumaTransformBlockSizeMinus2, s.Log2DiffMaxMinLumaTransformBlockSize = uint32(e.N(4)), uint32(e.N(4))
	s.MaxTransformHierarchyDepthInter, s.MaxTransformHierarchyDepthIntra = uint32(e.N(5)), uint32(e.N(5))
	s.ScalingListEnabledFlag = e.P(1, 3)
	s.AmpEnabledFlag, s.SampleAdaptiveOffsetEnabledFlag = e.b(), e.b()
	if s.PcmEnabledFlag = e.P(1, 3); s.PcmEnabledFlag {
		s.PcmSampleBitDepthLumaMinus1, s.PcmSampleBitDepthChromaMinus1 = uint8(e.N(16)), uint8(e.N(16))
		s.Log2MinPcmLumaCodingBlockSizeMinus3, s.Log2DiffMaxMinPcmLumaCodingBlockSize = uint32(e.N(4)), uint32(e.N(4))
		s.PcmLoopFilterDisabledFlag = e.b()
	}
	s.LongTermRefPicsPresentFlag = e.P(1, 3)
	s.TemporalMvpEnabledFlag, s.StrongIntraSmoothingEnabledFlag = e.b(), e.b()
	if e.P(2, 3) {
		q := e.fullH264VUI()
		v := &h265.SPS_VUI{AspectRatioInfoPresentFlag: q.AspectRatioInfoPresentFlag, AspectRatioIdc: q.AspectRatioIdc, SarWidth: q.SarWidth,
			SarHeight: q.SarHeight, OverscanInfoPresentFlag: q.OverscanInfoPresentFlag, OverscanAppropriateFlag: q.OverscanAppropriateFlag,
			VideoSignalTypePresentFlag: q.VideoSignalTypePresentFlag, VideoFormat: q.VideoFormat, VideoFullRangeFlag: q.VideoFullRangeFlag,
			ColourDescriptionPresentFlag: q.ColourDescriptionPresentFlag, ColourPrimaries: q.ColourPrimaries,
			TransferCharacteristics: q.TransferCharacteristics, MatrixCoefficients: q.MatrixCoefficients,
			ChromaLocInfoPresentFlag: q.ChromaLocInfoPresentFlag, ChromaSampleLocTypeTopField: q.ChromaSampleLocTypeTopField,
			ChromaSampleLocTypeBottomField: q.ChromaSampleLocTypeBottomField}
		v.NeutralChromaIndicationFlag, v.FieldSeqFlag, v.FrameFieldInfoPresentFlag = e.b(), e.b(), e.b()
		if e.P(1, 3) {
			v.DefaultDisplayWindow = &h265.SPS_Window{LeftOffset: e.wide(10), RightOffset: e.wide(10), TopOffset: e.wide(10), BottomOffset: e.wide(10)}
		}
		if e.b() {
			v.TimingInfo = &h265.SPS_TimingInfo{NumUnitsInTick: 1 + e.wide(2000), TimeScale: 1 + e.wide(180000), POCProportionalToTimingFlag: e.b()}
			if v.TimingInfo.POCProportionalToTimingFlag {
				v.TimingInfo.NumTicksPOCDiffOneMinus1 = e.wide(10)
			}
		}
		s.VUI = v
	}
	return s
}

func (e *Env) writeH265SPS(s *h265.SPS) (head, rbsp []byte, need int, record []byte) {
	w := &bitw{}
	w.bits(uint64(s.VPSID), 4)
	w.bits(uint64(s.MaxSubLayersMinus1), 3)
	w.flag(s.TemporalIDNestingFlag)
	p := &s.ProfileTierLevel
	pw := &bitw{}
	pw.bits(uint64(p.GeneralProfileSpace), 2)
	pw.bits(uint64(p.GeneralTierFlag), 1)
	pw.bits(uint64(p.GeneralProfileIdc), 5)
	for _, f := range p.GeneralProfileCompatibilityFlag {
		pw.flag(f)
	}
	for _, f := range []bool{p.GeneralProgressiveSourceFlag, p.GeneralInterlacedSourceFlag, p.GeneralNonPackedConstraintFlag, p.GeneralFrameOnlyConstraintFlag,
		p.GeneralMax12bitConstraintFlag, p.GeneralMax10bitConstraintFlag, p.GeneralMax8bitConstraintFlag,
		p.GeneralMax422ChromeConstraintFlag, p.GeneralMax420ChromaConstraintFlag, p.GeneralMaxMonochromeConstraintFlag,
		p.GeneralIntraConstraintFlag, p.GeneralOnePictureOnlyConstraintFlag, p.GeneralLowerBitRateConstraintFlag, p.GeneralMax14BitConstraintFlag} {
		pw.flag(f)
	}
	pw.bits(0, 34)
	pw.bits(uint64(p.GeneralLevelIdc), 8)
	record = append(append([]byte(nil), pw.b...), byte(s.ChromaFormatIdc), byte(s.BitDepthLumaMinus8), byte(s.BitDepthChromaMinus8))
	for _, b := range pw.b {
		w.bits(uint64(b), 8)
	}
	n := int(s.MaxSubLayersMinus1)
	if n > 0 {
		for i := 0; i < n; i++ {
			w.flag(p.SubLayerProfilePresentFlag[i])
			w.flag(p.SubLayerLevelPresentFlag[i])
		}
		for i := n; i < 8; i++ {
			w.bits(0, 2)
		}
		for i := 0; i < n; i++ {
			if p.SubLayerProfilePresentFlag[i] {
				for j := 0; j < 11; j++ {
					w.bits(uint64(pw.b[j]), 8)
				}
			}
			if p.SubLayerLevelPresentFlag[i] {
				w.bits(uint64(e.N(186)), 8)
			}
		}
	}
	w.ue(uint32(s.ID))
	w.ue(s.ChromaFormatIdc)
	if s.ChromaFormatIdc == 3 {
		w.flag(s.SeparateColourPlaneFlag)
	}
	w.ue(s.PicWidthInLumaSamples)
	w.ue(s.PicHeightInLumaSamples)
	win := func(c *h265.SPS_Window) {
		w.flag(c != nil)
		if c != nil {
			w.ue(c.LeftOffset)
			w.ue(c.RightOffset)
			w.ue(c.TopOffset)
			w.ue(c.BottomOffset)
		}
	}
	win(s.ConformanceWindow)
	w.ue(s.BitDepthLumaMinus8)
	w.ue(s.BitDepthChromaMinus8)
	w.ue(s.Log2MaxPicOrderCntLsbMinus4)
	w.flag(s.SubLayerOrderingInfoPresentFlag)
	for i := 0; i <= n; i++ {
		if i == n || s.SubLayerOrderingInfoPresentFlag {
			w.ue(s.MaxDecPicBufferingMinus1[i])
			w.ue(s.MaxNumReorderPics[i])
			w.ue(s.MaxLatencyIncreasePlus1[i])
		}
	}
	for _, v := range []uint32{s.Log2MinLumaCodingBlockSizeMinus3, s.Log2DiffMaxMinLumaCodingBlockSize, s.Log2MinLumaTransformBlockSizeMinus2,
		s.Log2DiffMaxMinLumaTransformBlockSize, s.MaxTransformHierarchyDepthInter, s.MaxTransformHierarchyDepthIntra} {
		w.ue(v)
	}
	w.flag(s.ScalingListEnabledFlag)
	if s.ScalingListEnabledFlag {
		data := e.P(1, 2)
		w.flag(data)
		if data {
			s.ScalingListData = e.writeH265Lists(w)
		}
	}
	w.flag(s.AmpEnabledFlag)
	w.flag(s.SampleAdaptiveOffsetEnabledFlag)
	w.flag(s.PcmEnabledFlag)
	if s.PcmEnabledFlag {
		w.bits(uint64(s.PcmSampleBitDepthLumaMinus1), 4)
		w.bits(uint64(s.PcmSampleBitDepthChromaMinus1), 4)
		w.ue(s.Log2MinPcmLumaCodingBlockSizeMinus3)
		w.ue(s.Log2DiffMaxMinPcmLumaCodingBlockSize)
		w.flag(s.PcmLoopFilterDisabledFlag)
	}
	sets := e.W(3, 1, 1, 1, 1)
	if e.P(1, 30) {
		sets = 64
	}
	w.ue(uint32(sets))
	for i := 0; i < sets; i++ {
		s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, e.writeRefPicSet(w, s.ShortTermRefPicSets))
	}
	w.flag(s.LongTermRefPicsPresentFlag)
	if s.LongTermRefPicsPresentFlag {
		lt := 0
		if e.exoticSets {
			lt = e.N(33)
		}
		w.ue(uint32(lt))
		for ; lt > 0; lt-- {
			w.bits(uint64(e.N(1<<(s.Log2MaxPicOrderCntLsbMinus4+4))), int(s.Log2MaxPicOrderCntLsbMinus4+4))
			w.flag(e.b())
		}
	}
	w.flag(s.TemporalMvpEnabledFlag)
	w.flag(s.StrongIntraSmoothingEnabledFlag)
	w.flag(s.VUI != nil)
	need = w.n
	if v := s.VUI; v != nil {
		w.vuiHead(v.AspectRatioInfoPresentFlag, v.AspectRatioIdc, v.SarWidth, v.SarHeight, v.OverscanInfoPresentFlag, v.OverscanAppropriateFlag,
			v.VideoSignalTypePresentFlag, v.VideoFormat, v.VideoFullRangeFlag, v.ColourDescriptionPresentFlag, v.ColourPrimaries,
			v.TransferCharacteristics, v.MatrixCoefficients, v.ChromaLocInfoPresentFlag, v.ChromaSampleLocTypeTopField, v.ChromaSampleLocTypeBottomField)
		w.flag(v.NeutralChromaIndicationFlag)
		w.flag(v.FieldSeqFlag)
		w.flag(v.FrameFieldInfoPresentFlag)
		win(v.DefaultDisplayWindow)
		w.flag(v.TimingInfo != nil)
		if t := v.TimingInfo; t != nil {
			w.bits(uint64(t.NumUnitsInTick), 32)
			w.bits(uint64(t.TimeScale), 32)
			w.flag(t.POCProportionalToTimingFlag)
			if t.POCProportionalToTimingFlag {
				w.ue(t.NumTicksPOCDiffOneMinus1)
			}
		}
		need = w.n
		if v.TimingInfo != nil {
			w.flag(false) // hrd
		}
		w.flag(false) // bitstream restriction
	}
	w.flag(false)
	w.trail()
	return []byte{33 << 1, 1}, w.b, need, record
}

// writeH265Lists writes scaling_list_data (H.265 7.3.4).
func (e *Env) writeH265Lists(w *bitw) *h265.SPS_ScalingListData {
	d := &h265.SPS_ScalingListData{}
	for size := 0; size < 4; size++ {
		step := 1
		if size == 3 {
			step = 3
		}
		for m := 0; m < 6; m += step {
			coefs := e.P(1, 4)
			w.flag(coefs)
			d.ScalingListPredModeFlag[size][m] = coefs
			if !coefs {
				v := uint32(e.N(m/step + 1))
				d.ScalingListPredmatrixIDDelta[size][m] = v
				w.ue(v)
				continue
			}
			if size > 1 {
				v := int32(e.N(255) - 7)
				d.ScalingListDcCoefMinus8[size-2][m] = v
				w.se(v)
			}
			n := 64
			if size == 0 {
				n = 16
			}
			for i := 0; i < n; i++ {
				w.se(int32(e.N(256) - 128))
			}
		}
	}
	return d
}

// writeRefPicSet writes st_ref_pic_set (H.265 7.3.7) and derives its meaning (7.4.8).
func (e *Env) writeRefPicSet(w *bitw, prev []*h265.SPS_ShortTermRefPicSet) *h265.SPS_ShortTermRefPicSet {
	r := &h265.SPS_ShortTermRefPicSet{}
	type pic struct {
		d    int32
		used bool
	}
	var neg, pos []pic
	if len(prev) > 0 {
		r.InterRefPicSetPredictionFlag = e.P(1, 2)
		w.flag(r.InterRefPicSetPredictionFlag)
	}
	if r.InterRefPicSetPredictionFlag {
		ref := prev[len(prev)-1]
		abs := int32(1 + e.N(6))
		if e.P(1, 10) {
			abs = int32(1 + e.N(1<<15))
		}
		r.AbsDeltaRpsMinus1 = uint32(abs - 1)
		r.DeltaRpsSign = e.b()
		delta := abs
		if r.DeltaRpsSign {
			delta = -abs
		}
		w.flag(r.DeltaRpsSign)
		w.ue(r.AbsDeltaRpsMinus1)
		for _, d := range append(append(append([]int32(nil), ref.DeltaPocS0...), ref.DeltaPocS1...), 0) {
			used := e.P(2, 3)
			use := true
			w.flag(used)
			if !used {
				use = e.b()
				w.flag(use)
			}
			switch p := (pic{d + delta, used}); {
			case !use:
			case p.d < 0:
				neg = append(neg, p)
			case p.d > 0:
				pos = append(pos, p)
			}
		}
		sort.Slice(neg, func(i, j int) bool { return neg[i].d > neg[j].d })
		sort.Slice(pos, func(i, j int) bool { return pos[i].d < pos[j].d })
	} else {
		n0, n1 := e.N(5), e.N(4)
		if e.P(1, 20) {
			n0 = e.N(17)
		}
		w.ue(uint32(n0))
		w.ue(uint32(n1))
		one := func(n int, sign int32) (l []pic) {
			at := int32(0)
			for ; n > 0; n-- {
				step := int32(e.W(4, 2, 1, 1))
				if e.P(1, 20) {
					step = int32(e.N(1 << 15))
				}
				at += step + 1
				used := e.b()
				w.ue(uint32(step))
				w.flag(used)
				l = append(l, pic{sign * at, used})
			}
			return
		}
		neg = one(n0, -1)
		pos = one(n1, 1)
	}
	r.NumNegativePics, r.NumPositivePics = uint32(len(neg)), uint32(len(pos))
	for _, p := range neg {
		r.DeltaPocS0, r.UsedByCurrPicS0Flag = append(r.DeltaPocS0, p.d), append(r.UsedByCurrPicS0Flag, p.used)
	}
	for _, p := range pos {
		r.DeltaPocS1, r.UsedByCurrPicS1Flag = append(r.DeltaPocS1, p.d), append(r.UsedByCurrPicS1Flag, p.used)
	}
	return r
}

func sizeH265(s *h265.SPS) (int, int) {
	w, h := int(s.PicWidthInLumaSamples), int(s.PicHeightInLumaSamples)
	x, y := 1, 1
	switch s.ChromaFormatIdc {
	case 1:
		x, y = 2, 2
	case 2:
		x = 2
	}
	if c := s.ConformanceWindow; c != nil {
		w -= x * int(c.LeftOffset+c.RightOffset)
		h -= y * int(c.TopOffset+c.BottomOffset)
	}
	return w, h
}

// dumpH265 renders a set: when the ordering information is there once, it applies to all the sub-layers.
func dumpH265(s h265.SPS) string {
	for _, l := range []*[]uint32{&s.MaxDecPicBufferingMinus1, &s.MaxNumReorderPics, &s.MaxLatencyIncreasePlus1} {
		if n := len(*l); n > 0 && !s.SubLayerOrderingInfoPresentFlag {
			c := append([]uint32(nil), *l...)
			for i := range c {
				c[i] = c[n-1]
			}
			*l = c
		}
	}
	return dump(s)
}

func (e *Env) fullH265PPS() (p *h265.PPS, head, rbsp []byte, need int) {
	p = &h265.PPS{ID: uint32(e.N(64)), SPSID: uint32(e.N(16)), DependentSliceSegmentsEnabledFlag: e.b(), OutputFlagPresentFlag: e.b(), NumExtraSliceHeaderBits: uint8(e.N(8))}
	w := &bitw{}
	w.ue(p.ID)
	w.ue(p.SPSID)
	w.flag(p.DependentSliceSegmentsEnabledFlag)
	w.flag(p.OutputFlagPresentFlag)
	w.bits(uint64(p.NumExtraSliceHeaderBits), 3)
	need = w.n
	for n := e.N(40); n > 0; n-- {
		w.flag(e.b())
	}
	w.trail()
	return p, []byte{34 << 1, 1}, w.b, need
}

// AV1

func (e *Env) fullAV1Seq() (h *av1.SequenceHeader, head, rbsp []byte, need int, tr codecTraits) {
	h = &av1.SequenceHeader{}
	w := &bitw{}
	h.SeqProfile = uint8(e.W(4, 1, 1))
	w.bits(uint64(h.SeqProfile), 3)
	h.ReducedStillPictureHeader = e.P(1, 6)
	h.StillPicture = h.ReducedStillPictureHeader || e.P(1, 6)
	w.flag(h.StillPicture)
	w.flag(h.ReducedStillPictureHeader)
	h.OperatingPointIdc, h.SeqTier, h.DecoderModelPresentForThisOp, h.InitialDisplayPresentForThisOp = []uint16{0}, []bool{false}, []bool{false}, []bool{false}
	if h.ReducedStillPictureHeader {
		h.SeqLevelIdx = []uint8{uint8(e.N(32))}
		w.bits(uint64(h.SeqLevelIdx[0]), 5)
	} else {
		timing := e.P(1, 2)
		delay := 0
		w.flag(timing)
		if timing {
			t := &av1.SequenceHeader_TimingInfo{NumUnitsInDisplayTick: 1 + e.wide(1000), TimeScale: 1 + e.wide(90000), EqualPictureInterval: e.b()}
			h.TimingInfo = t
			w.bits(uint64(t.NumUnitsInDisplayTick), 32)
			w.bits(uint64(t.TimeScale), 32)
			w.flag(t.EqualPictureInterval)
			if t.EqualPictureInterval {
				t.NumTicksPerPictureMinus1 = e.wide(10)
				w.ue(t.NumTicksPerPictureMinus1)
			}
			h.DecoderModelInfoPresentFlag = e.exoticSets && e.b()
			w.flag(h.DecoderModelInfoPresentFlag)
			if h.DecoderModelInfoPresentFlag {
				delay = e.N(32)
				w.bits(uint64(delay), 5)
				w.bits(uint64(1+e.N(1000)), 32)
				w.bits(uint64(e.N(32)), 5)
				w.bits(uint64(e.N(32)), 5)
			}
		}
		h.InitialDisplayDelayPresentFlag = e.exoticSets && e.b()
		w.flag(h.InitialDisplayDelayPresentFlag)
		n := e.W(6, 1, 1)
		if e.P(1, 10) {
			n = e.N(32)
		}
		w.bits(uint64(n), 5)
		h.OperatingPointsCntMinus1 = uint8(n)
		h.OperatingPointIdc, h.SeqTier, h.DecoderModelPresentForThisOp, h.InitialDisplayPresentForThisOp = nil, nil, make([]bool, n+1), make([]bool, n+1)
		h.InitialDisplayDelayMinus1 = make([]uint8, n+1)
		for i := 0; i <= n; i++ {
			idc, lv, tier := e.N(4096), e.N(32), false
			w.bits(uint64(idc), 12)
			w.bits(uint64(lv), 5)
			if lv > 7 {
				tier = e.b()
				w.flag(tier)
			}
			if h.DecoderModelInfoPresentFlag {
				h.DecoderModelPresentForThisOp[i] = e.b()
				w.flag(h.DecoderModelPresentForThisOp[i])
				if h.DecoderModelPresentForThisOp[i] { // operating_parameters_info
					w.bits(uint64(e.N(1<<uint(delay+1))), delay+1)
					w.bits(uint64(e.N(1<<uint(delay+1))), delay+1)
					w.flag(e.b())
				}
			}
			if h.InitialDisplayDelayPresentFlag {
				h.InitialDisplayPresentForThisOp[i] = e.b()
				w.flag(h.InitialDisplayPresentForThisOp[i])
				if h.InitialDisplayPresentForThisOp[i] {
					h.InitialDisplayDelayMinus1[i] = uint8(e.N(16))
					w.bits(uint64(h.InitialDisplayDelayMinus1[i]), 4)
				}
			}
			h.OperatingPointIdc, h.SeqLevelIdx, h.SeqTier = append(h.OperatingPointIdc, uint16(idc)), append(h.SeqLevelIdx, uint8(lv)), append(h.SeqTier, tier)
		}
	}
	wb, hb := 11, 10
	if e.P(1, 3) {
		wb, hb = e.N(16), e.N(16)
	}
	w.bits(uint64(wb), 4)
	w.bits(uint64(hb), 4)
	h.MaxFrameWidthMinus1, h.MaxFrameHeightMinus1 = uint32(e.N(1<<uint(wb+1))), uint32(e.N(1<<uint(hb+1)))
	w.bits(uint64(h.MaxFrameWidthMinus1), wb+1)
	w.bits(uint64(h.MaxFrameHeightMinus1), hb+1)
	fl := func(p *bool) bool { *p = e.b(); w.flag(*p); return *p }
	if !h.ReducedStillPictureHeader && fl(&h.FrameIDNumbersPresentFlag) {
		h.DeltaFrameIDLengthMinus2, h.AdditionalFrameIDLengthMinus1 = uint8(e.N(15)), uint8(e.N(8))
		w.bits(uint64(h.DeltaFrameIDLengthMinus2), 4)
		w.bits(uint64(h.AdditionalFrameIDLengthMinus1), 3)
	}
	fl(&h.Use128x128Superblock)
	fl(&h.EnableFilterIntra)
	fl(&h.EnableIntraEdgeFilter)
	h.SeqForceScreenContentTools = av1.SequenceHeader_SeqForceScreenContentTools_SELECT_SCREEN_CONTENT_TOOLS
	h.SeqForceIntegerMv = av1.SequenceHeader_SeqForceIntegerMv_SELECT_INTEGER_MV
	if !h.ReducedStillPictureHeader {
		fl(&h.EnableInterintraCompound)
		fl(&h.EnableMaskedCompound)
		fl(&h.EnableWarpedMotion)
		fl(&h.EnableDualFilter)
		if fl(&h.EnableOrderHint) {
			fl(&h.EnableJntComp)
			fl(&h.EnableRefFrameMvs)
		}
		if !fl(&h.SeqChooseScreenContentTools) {
			v := e.N(2)
			w.bits(uint64(v), 1)
			h.SeqForceScreenContentTools = av1.SequenceHeader_SeqForceScreenContentTools(v)
		}
		if h.SeqForceScreenContentTools > 0 && !fl(&h.SeqChooseIntegerMv) {
			v := e.N(2)
			w.bits(uint64(v), 1)
			h.SeqForceIntegerMv = av1.SequenceHeader_SeqForceIntegerMv(v)
		}
		if h.EnableOrderHint {
			h.OrderHintBitsMinus1 = uint8(e.N(8))
			w.bits(uint64(h.OrderHintBitsMinus1), 3)
		}
	}
	fl(&h.EnableSuperRes)
	fl(&h.EnableCdef)
	fl(&h.EnableRestoration)
	c := &h.ColorConfig
	fl(&c.HighBitDepth)
	c.BitDepth = 8
	if c.HighBitDepth {
		c.BitDepth = 10
		if h.SeqProfile == 2 && fl(&c.TwelveBit) {
			c.BitDepth = 12
		}
	}
	if h.SeqProfile != 1 {
		fl(&c.MonoChrome)
	}
	c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients = 2, 2, 2
	if fl(&c.ColorDescriptionPresentFlag) {
		v := [3]int{1 + e.N(22), 1 + e.N(18), e.N(15)}
		if e.P(1, 2) {
			v = [3]int{1, 13, 0}
			if h.SeqProfile != 1 && c.BitDepth != 12 && !c.MonoChrome { // RGB is 4:4:4
				v[e.N(3)]++
			}
		}
		for _, x := range v {
			w.bits(uint64(x), 8)
		}
		c.ColorPrimaries = av1.SequenceHeader_ColorPrimaries(v[0])
		c.TransferCharacteristics = av1.SequenceHeader_TransferCharacteristics(v[1])
		c.MatrixCoefficients = av1.SequenceHeader_MatrixCoefficients(v[2])
	}
	switch {
	case c.MonoChrome:
		fl(&c.ColorRange)
		c.SubsamplingX, c.SubsamplingY = true, true
	case c.ColorPrimaries == 1 && c.TransferCharacteristics == 13 && c.MatrixCoefficients == 0:
		c.ColorRange = true
	default:
		fl(&c.ColorRange)
		switch {
		case h.SeqProfile == 0:
			c.SubsamplingX, c.SubsamplingY = true, true
		case h.SeqProfile == 1:
		case c.BitDepth == 12:
			if fl(&c.SubsamplingX) {
				fl(&c.SubsamplingY)
			}
		default:
			c.SubsamplingX = true
		}
		if c.SubsamplingX && c.SubsamplingY {
			c.ChromaSamplePosition = av1.SequenceHeader_ChromaSamplePosition(e.N(3))
			w.bits(uint64(c.ChromaSamplePosition), 2)
		}
	}
	if !c.MonoChrome {
		w.flag(e.b()) // separate_uv_delta_q
	}
	fl(&h.FilmGrainParamsPresent)
	need = w.n
	w.trail()
	tr = codecTraits{w: int(h.MaxFrameWidthMinus1+1) & 0xFFFF, h: int(h.MaxFrameHeightMinus1+1) & 0xFFFF, bytes: []byte{h.SeqProfile<<5 | h.SeqLevelIdx[0],
		byte(b2i(h.SeqTier[0])<<7 | b2i(c.HighBitDepth)<<6 | b2i(c.TwelveBit)<<5 | b2i(c.MonoChrome)<<4 | b2i(c.SubsamplingX)<<3 | b2i(c.SubsamplingY)<<2 | int(c.ChromaSamplePosition))}}
	return h, []byte{1 << 3}, w.b, need, tr
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

// exoticSet makes a parameter set with syntax that a receiver may not support: it has to tell, or to read it.
func (e *Env) exoticSet(k int) {
	e.exoticSets = true
	defer func() { e.exoticSets = false }()
	var err error
	var got, want string
	switch k {
	case lH265:
		s := e.fullH265SPS()
		head, rbsp, _, _ := e.writeH265SPS(s)
		var r h265.SPS
		err = r.Unmarshal(append(head, epb(rbsp)...))
		got, want = dumpH265(r), dumpH265(*s)
	case lAV1:
		h, head, rbsp, _, _ := e.fullAV1Seq()
		var r av1.SequenceHeader
		err = r.Unmarshal(append(head, rbsp...))
		got, want = dump(&r), dump(h)
	default:
		return
	}
	e.Ev("exotic", err)
	if err != nil {
		e.Probe("unsupported set refused")
		return
	}
	e.sameView(liveNames[k], got, want)
}

func (e *Env) sameView(n, got, want string) {
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		i = max(0, i-60)
		e.Fail("parameters", "%s: the parameters are ...%s, reported are ...%s", n, clip(want[min(i, len(want)):]), clip(got[min(i, len(got)):]))
	}
}
