// rt replays on generated controllers the scenarios given by the specification.
package main

import (
	"fmt"

	"verifharness/core"
)

func main() {
	core.Main(map[string]core.Mode{
		"chain":        chainMode,
		"walk":         walkMode,
		"publish":      publishMode,
		"request":      requestMode,
		"address":      addressMode,
		"replyaddress": replyAddressMode,
	})
}

// opNames are the names of an operation in the generated code of each version.
type opNames struct {
	sub, unsub, send, req, reply, wait string
	msg                                string // message
	rep                                string // reply message
	addr                               string // address
	repAddr                            string
}

// names gives the names for asyncapi v3 and v2 of the logical operations of the
// documents rt3.yaml and rt2.yaml.
var names = map[string]map[int]opNames{
	// received by the app
	"recvA": {3: {sub: "SubscribeToRecvAOperation", unsub: "UnsubscribeFromRecvAOperation", send: "SendToRecvAOperation", msg: "CorrMsgMessage", addr: "app.alpha"},
		2: {sub: "SubscribeAppAlpha", unsub: "UnsubscribeAppAlpha", send: "PublishAppAlpha", msg: "CorrMsgMessage", addr: "app.alpha"}},
	"recvB": {3: {sub: "SubscribeToRecvBOperation", unsub: "UnsubscribeFromRecvBOperation", send: "SendToRecvBOperation", msg: "PlainMsgMessage", addr: "app.beta"},
		2: {sub: "SubscribeAppBeta", unsub: "UnsubscribeAppBeta", send: "PublishAppBeta", msg: "PlainMsgMessage", addr: "app.beta"}},
	"recvG": {3: {sub: "SubscribeToRecvGOperation", unsub: "UnsubscribeFromRecvGOperation", send: "SendToRecvGOperation", msg: "CorrMsgMessage", addr: "app.g.{first}.and.{second}"},
		2: {sub: "SubscribeAppGFirstAndSecond", unsub: "UnsubscribeAppGFirstAndSecond", send: "PublishAppGFirstAndSecond", msg: "CorrMsgMessage", addr: "app.g.{first}.and.{second}"}},
	// received by the user
	"sendA": {3: {sub: "SubscribeToSendAOperation", unsub: "UnsubscribeFromSendAOperation", send: "SendAsSendAOperation", msg: "CorrMsgMessage", addr: "user.alpha"},
		2: {sub: "SubscribeUserAlpha", unsub: "UnsubscribeUserAlpha", send: "PublishUserAlpha", msg: "CorrMsgMessage", addr: "user.alpha"}},
	"sendB": {3: {sub: "SubscribeToSendBOperation", unsub: "UnsubscribeFromSendBOperation", send: "SendAsSendBOperation", msg: "PlainMsgMessage", addr: "user.beta"},
		2: {sub: "SubscribeUserBeta", unsub: "UnsubscribeUserBeta", send: "PublishUserBeta", msg: "PlainMsgMessage", addr: "user.beta"}},
	"sendG": {3: {sub: "SubscribeToSendGOperation", unsub: "UnsubscribeFromSendGOperation", send: "SendAsSendGOperation", msg: "CorrMsgMessage", addr: "user.g.{first}.and.{second}"},
		2: {sub: "SubscribeUserGFirstAndSecond", unsub: "UnsubscribeUserGFirstAndSecond", send: "PublishUserGFirstAndSecond", msg: "CorrMsgMessage", addr: "user.g.{first}.and.{second}"}},
	// requests made by the user
	"askH": {3: {sub: "SubscribeToAskHOperation", unsub: "UnsubscribeFromAskHOperation", send: "SendToAskHOperation", req: "RequestToAskHOperation", reply: "ReplyToAskHOperation", msg: "HReqMessage", rep: "HRepMessage", addr: "req.header", repAddr: "rep.header"},
		2: {sub: "SubscribeReqHeader", unsub: "UnsubscribeReqHeader", send: "PublishReqHeader", wait: "WaitForRepHeader", msg: "HReqMessage", rep: "HRepMessage", addr: "req.header", repAddr: "rep.header"}},
	"askP": {3: {sub: "SubscribeToAskPOperation", unsub: "UnsubscribeFromAskPOperation", send: "SendToAskPOperation", req: "RequestToAskPOperation", reply: "ReplyToAskPOperation", msg: "PReqMessage", rep: "PRepMessage", addr: "req.payload", repAddr: "rep.payload"},
		2: {sub: "SubscribeReqPayload", unsub: "UnsubscribeReqPayload", send: "PublishReqPayload", wait: "WaitForRepPayload", msg: "PReqMessage", rep: "PRepMessage", addr: "req.payload", repAddr: "rep.payload"}},
	"askN": {3: {sub: "SubscribeToAskNOperation", unsub: "UnsubscribeFromAskNOperation", send: "SendToAskNOperation", req: "RequestToAskNOperation", reply: "ReplyToAskNOperation", msg: "NReqMessage", rep: "NRepMessage", addr: "req.none", repAddr: "rep.none"}},
	"askD": {3: {sub: "SubscribeToAskDOperation", unsub: "UnsubscribeFromAskDOperation", send: "SendToAskDOperation", req: "RequestToAskDOperation", reply: "ReplyToAskDOperation", msg: "DReqMessage", rep: "DRepMessage", addr: "req.dynamic"}},
	"askO": {3: {sub: "SubscribeToAskOOperation", unsub: "UnsubscribeFromAskOOperation", send: "SendToAskOOperation", req: "RequestToAskOOperation", reply: "ReplyToAskOOperation", msg: "OReqMessage", rep: "ORepMessage", addr: "req.optdyn"}},
	"askG": {3: {sub: "SubscribeToAskGOperation", unsub: "UnsubscribeFromAskGOperation", send: "SendToAskGOperation", req: "RequestToAskGOperation", reply: "ReplyToAskGOperation", msg: "HReqMessage", rep: "HRepMessage", addr: "req.g.{id}", repAddr: "rep.g"}},
	// request made by the app
	"uaskH": {3: {sub: "SubscribeToUaskHOperation", unsub: "UnsubscribeFromUaskHOperation", send: "SendAsUaskHOperation", req: "RequestAsUaskHOperation", reply: "ReplyToUaskHOperation", msg: "HReqMessage", rep: "HRepMessage", addr: "ureq.header", repAddr: "urep.header"}},
}

func pkgOf(v int) *core.Pkg { return core.Packages[fmt.Sprintf("rt%d", v)] }

func versions(op string) []int {
	var vs []int
	for _, v := range []int{2, 3} {
		if _, ok := names[op][v]; ok {
			vs = append(vs, v)
		}
	}
	return vs
}
