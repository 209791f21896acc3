package main

import (
	"fmt"
	"strings"

	"github.com/jart/gosip/zsim/rt"
)

// Session descriptions the way all kinds of equipment make them.

type fmtSpec struct {
	pt        int
	name, fmt string
}

var audioFormats = []fmtSpec{
	{0, "PCMU/8000", ""}, {8, "PCMA/8000", ""}, {3, "GSM/8000", ""}, {9, "G722/8000", ""}, {18, "G729/8000", "annexb=no"}, {4, "G723/8000", "bitrate=5.3;annexa=no"}, {13, "CN/8000", ""},
	{96, "opus/48000/2", "useinbandfec=1; minptime=10"}, {97, "iLBC/8000", "mode=30"}, {98, "speex/16000", ""}, {99, "AMR-WB/16000/1", "mode-change-capability=2;max-red=0"}, {100, "G726-32/8000", ""}, {10, "L16/44100/2", ""}, {11, "L16/44100", ""},
	{102, "SILK/24000", ""}, {103, "ISAC/16000", ""}, {109, "opus/48000/2", ""}, {111, "opus/48000/2", "stereo=1"}, {126, "telephone-event/16000", "0-15"}, {127, "CN/16000", ""},
}

var videoFormats = []fmtSpec{
	{31, "H261/90000", "CIF=1;QCIF=1"}, {34, "H263/90000", ""}, {96, "VP8/90000", ""}, {97, "H264/90000", "profile-level-id=42e01f;packetization-mode=1"}, {98, "H263-1998/90000", "CIF=2"}, {99, "H264/90000", ""}, {101, "rtx/90000", "apt=96"}, {26, "JPEG/90000", ""},
}

// standard names payload types that need no rtpmap.
var standard = map[string]string{
	"0": "PCMU/8000", "3": "GSM/8000", "4": "G723/8000", "8": "PCMA/8000", "9": "G722/8000", "10": "L16/44100/2", "11": "L16/44100", "13": "CN/8000", "18": "G729/8000",
	"26": "JPEG/90000", "31": "H261/90000", "34": "H263/90000",
}

var plainAttrs = []string{
	"rtcp:53020", "maxptime:150", "x-y:z:w", "inactive", "rtcp-mux", "silenceSupp:off - - - -", "ssrc:1234567 cname:user@host", "crypto:1 AES_CM_128_HMAC_SHA1_80 inline:d0RmdmcmVCspeEc3QGZiNWpVLFJhQX1cfHAwJSoj|2^20|1:32",
	"candidate:1 1 UDP 2130706431 192.0.2.1 4000 typ host", "ice-ufrag:8hhY", "ice-pwd:asd88fgpdd777uzjYhagZg", "mid:1", "label:10", "setup:actpass", "rtcp-fb:* nack", "tool:libavformat", "charset:UTF-8", "nortpproxy:yes", "X-nat:0", "msi:mid=1", "group:BUNDLE 1 2", "curr:qos local none",
}

// describe makes up a description of media at addr. Which of the connection
// addresses counts is up to the reader; decoy is one that doesn't.
func describe(addr, decoy, origin string, port int, audio bool) string {
	rt.Stat("op.rich_description")
	var b strings.Builder
	line := func(f string, a ...any) { fmt.Fprintf(&b, f+"\r\n", a...) }
	fam := func(a string) string {
		if strings.Contains(a, ":") {
			return "IP6 " + a
		}
		return "IP4 " + a
	}
	n := pick(0, 0, 1, 3, 12, 20, 70)
	if n > 0 {
		n = W(n + 1)
	}
	attr := func(share int) {
		for k := n * share / 100; k > 0; k-- {
			line("a=%s", plainAttrs[W(len(plainAttrs))])
		}
	}
	dir := pickS("", "sendrecv", "sendonly", "recvonly")
	line("v=0")
	line("o=%s %d %d IN %s", pickS("-", "root", "bob", "Z"), W(1<<30), W(1000), fam(origin))
	line("s=%s", pickS("-", "my session", "grüß", "c=IN IP4 203.0.113.1", " "))
	if F(200) {
		line("i=info = more")
	}
	if F(100) {
		line("u=http://example.com/?a=b")
	}
	if F(100) {
		line("e=bob@example.com (Bob)")
	}
	// 0: session; 1: audio; 2: both, where the one of audio counts.
	where := 0
	if audio {
		where = weighted([]int{50, 25, 25})
	}
	switch where {
	case 0:
		line("c=IN %s", fam(addr))
	case 2:
		line("c=IN %s", fam(decoy))
	}
	if F(200) {
		line("b=AS:%d", 64+W(1000))
	}
	line("t=%s", pickS("0 0", "0 0", "3034423619 3042462419"))
	if F(100) {
		line("k=clear:secret")
	}
	if dir != "" && F(300) {
		line("a=%s", dir)
		dir = ""
	}
	if F(300) {
		attr(20)
	}
	media := func(kind string, port int, pool []fmtSpec, own string) {
		var l []fmtSpec
		used := map[int]bool{}
		for k := 1 + W(pick(2, 4, 12, 60)); k > 0; k-- {
			if f := pool[W(len(pool))]; !used[f.pt] {
				used[f.pt] = true
				l = append(l, f)
			}
		}
		if kind == "audio" && F(700) && !used[0] {
			l = append([]fmtSpec{pool[0]}, l...)
		}
		if kind == "audio" && F(700) && !used[101] {
			l = append(l, fmtSpec{101, "telephone-event/8000", pickS("0-16", "0-15", "0-11,16")})
		}
		s := fmt.Sprint(port)
		if F(50) {
			s += "/2"
		}
		s += " " + pickS("RTP/AVP", "RTP/AVP", "RTP/AVP", "RTP/SAVP", "UDP/TLS/RTP/SAVPF")
		for _, f := range l {
			s += fmt.Sprint(" ", f.pt)
		}
		line("m=%s %s", kind, s)
		if own != "" {
			line("c=IN %s", fam(own))
		}
		if F(100) {
			line("b=TIAS:%d", W(100000))
		}
		attr(20)
		late := F(300)
		for _, f := range l {
			_, std := standard[fmt.Sprint(f.pt)]
			if !std || !F(300) {
				line("a=rtpmap:%d %s", f.pt, f.name)
			}
			if f.fmt != "" && !late {
				line("a=fmtp:%d %s", f.pt, f.fmt)
			}
		}
		for _, f := range l {
			if f.fmt != "" && late {
				line("a=fmtp:%d %s", f.pt, f.fmt)
			}
		}
		if kind == "audio" || !audio {
			if F(300) {
				line("a=ptime:%s", pickS("20", "30", "1"))
			}
			if dir != "" {
				line("a=%s", dir)
			}
		}
		attr(60)
	}
	video := func() {
		own := ""
		if F(300) {
			own = decoy
		}
		if where == 1 {
			own = decoy
		}
		media("video", 20000+W(100), videoFormats, own)
	}
	after := false
	if !audio {
		media("video", 20000+W(100), videoFormats, "")
	} else if F(300) {
		if after = F(500); !after {
			video()
		}
	}
	if F(50) {
		line("m=application 9 UDP/BFCP *")
		line("a=floorctrl:c-only")
	}
	if audio {
		own := ""
		if where > 0 {
			own = addr
		}
		media("audio", port, audioFormats, own)
		if after {
			video()
		}
	}
	if F(50) {
		line("m=message 2855 TCP/MSRP *")
		if F(300) {
			line("c=IN %s", fam(decoy))
		}
		line("a=path:msrp://a.example:2855/x;tcp")
	}
	return b.String()
}
