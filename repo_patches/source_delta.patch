From e836bb1fff0ca97c2b7f4ea25cc2d05566bb2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:13 +0000
Subject: [PATCH 01/60] fix: make subscription cancellation safe with
 concurrent transmissions and cancellations

Transmitting a message while (or after) the subscription was canceled panicked
with a send on a closed channel, Cancel could take back its own request and
return without any cancellation, and canceling twice panicked.
---
 pkg/extensions/broker.go | 55 ++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..555abdb 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -10,6 +11,23 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+	state    *subscriptionState
+}
+
+// subscriptionState is the state shared by every copy of a subscription.
+type subscriptionState struct {
+	// request makes sure that the cancellation is requested only once.
+	request sync.Once
+
+	// transmit is held (shared) when transmitting a message, in order to not
+	// close the messages channel in the middle of a transmission.
+	transmit sync.RWMutex
+
+	// stop is closed when messages should not be transmitted anymore.
+	stop chan struct{}
+
+	// done is closed when the cancellation is complete.
+	done chan struct{}
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,13 +39,31 @@ func NewBrokerChannelSubscription(
 	return BrokerChannelSubscription{
 		messages: messages,
 		cancel:   cancel,
+		state: &subscriptionState{
+			stop: make(chan struct{}),
+			done: make(chan struct{}),
+		},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. Messages that are received once the
+// subscription is canceled are dropped, without any acknowledgement.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	bcs.state.transmit.RLock()
+	defer bcs.state.transmit.RUnlock()
+
+	// Drop the message if the subscription is already canceled
+	select {
+	case <-bcs.state.stop:
+		return
+	default:
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.state.stop:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -46,11 +82,14 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Execute cleanup function
 		cleanup()
 
-		// Close messages in order to avoid new messages
+		// Stop pending transmissions, then close messages in order to avoid new messages
+		close(bcs.state.stop)
+		bcs.state.transmit.Lock()
 		close(bcs.messages)
+		bcs.state.transmit.Unlock()
 
-		// Close cancel to let listeners know that the cancellation is complete
-		close(bcs.cancel)
+		// Let listeners know that the cancellation is complete
+		close(bcs.state.done)
 	}()
 }
 
@@ -58,12 +97,12 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 // up on broker, which will return when finished to avoid dangling resources, such
 // as non-existent queue listeners on (broker) server side.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
-	// Send a cancellation request
-	bcs.cancel <- true
+	// Send a cancellation request, if not already done
+	bcs.state.request.Do(func() { bcs.cancel <- true })
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.state.done:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From 5f800fd273ee1a7425dec2ec5945935a9068f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:13 +0000
Subject: [PATCH 02/60] fix: do not keep the versions locked when receiving a
 message of an unregistered version

---
 pkg/extensions/versioning/broker_subscription.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..8dbb945 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -103,6 +103,11 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 
 			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
+
+			// Unlock the versions
+			bs.versionsMutex.Unlock()
+
+			// Ignore the message if there is no channel for this version
 			if !exists {
 				// Set context
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
@@ -113,9 +118,6 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				continue
 			}
 
-			// Unlock the versions
-			bs.versionsMutex.Unlock()
-
 			// Send the message to the correct channel
 			vc.subscription.TransmitReceivedMessage(msg)
 		}
-- 
2.43.0


From 4185efa0d028db5042584d6954514481d5af7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:13 +0000
Subject: [PATCH 03/60] fix: lock channels and versions always in the same
 order in versioning

---
 pkg/extensions/versioning/broker_subscription.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 8dbb945..0d6bb15 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,6 +50,11 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
+	// Lock the channels to avoid conflict
+	// NOTE: should be locked before the versions, as when subscribing
+	bs.parent.channelsMutex.Lock()
+	defer bs.parent.channelsMutex.Unlock()
+
 	// Lock the versions to avoid conflict
 	bs.versionsMutex.Lock()
 	defer bs.versionsMutex.Unlock()
@@ -57,10 +62,6 @@ func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *ver
 	// Remove the version from the channelsByBroker
 	delete(bs.versionsChannels, vs.version)
 
-	// Lock the channels to avoid conflict
-	bs.parent.channelsMutex.Lock()
-	defer bs.parent.channelsMutex.Unlock()
-
 	// If there is still version channels, do nothing
 	if len(bs.versionsChannels) > 0 {
 		return
-- 
2.43.0


From 0eb1f18c5e6fbce3835ef677dfa2ff279bee1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 04/60] fix: allow publishing messages without headers through
 versioning wrapper

---
 pkg/extensions/versioning/wrapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..c2749b4 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -79,6 +79,9 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
 	// Add version to message
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
+		if mw.Headers == nil {
+			mw.Headers = make(map[string][]byte)
+		}
 		mw.Headers[w.versionHeaderKey] = []byte(version)
 	})
 
-- 
2.43.0


From 77857faa1a53779cbba018d1120461787d307b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 05/60] fix: make integer and number payloads decodable

They were encoded as big endian and decoded as little endian, number payloads
generated code that does not compile, referenced int32 ones were encoded on 8
bytes, and a payload of the wrong length panicked when received.
---
 .../generators/v2/templates/message.tmpl      | 28 +++++++++++++------
 .../generators/v3/templates/message.tmpl      | 28 +++++++++++++------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..4230d2f 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -66,16 +66,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -85,8 +97,8 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- /* If that's a string, an integer or a number, there maybe some more operation to do */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
@@ -173,7 +185,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..2744434 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -75,16 +75,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- else if eq $payload.Type "integer"}}
         // Convert to integer
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
         // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            if len(bMsg.Payload) != 4 {
+                return msg, fmt.Errorf("%w: payload should be 4 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            if len(bMsg.Payload) != 8 {
+                return msg, fmt.Errorf("%w: payload should be 8 bytes long", extensions.ErrAsyncAPI)
+            }
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -94,8 +106,8 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- /* If that's a string, an integer or a number, there maybe some more operation to do */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
             msg.Payload = {{ .Payload.Follow.Name }}(payload)
@@ -190,7 +202,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
-- 
2.43.0


From 3b37dddf9c0aa0cf0c34c800b3c03bf54cbc4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 06/60] fix: decode optional object headers

---
 pkg/codegen/generators/v2/templates/message.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/message.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 4230d2f..11419f3 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -124,7 +124,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- if isFieldPointer $headers $key $value }}
                     {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
+                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                         if err != nil {
                             return msg, err
                         }
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 2744434..58ed250 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -133,7 +133,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- if isFieldPointer $headers $key $value }}
                     {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
+                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                         if err != nil {
                             return msg, err
                         }
-- 
2.43.0


From 72e1f6d5040d4a2265d1b508022ddd129be31b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 07/60] fix: marshal asyncapi v2 additional properties as valid
 JSON, as for v3

---
 .../marshaling/additional_properties.tmpl     | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..d520a29 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -13,10 +13,22 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
-    // Add additional properties
-    for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
-    }
+	// When there are no properties, we cant start with a separator
+	needSeparator := len(b) > 1
+
+	// Add additional properties
+	for k, v := range t.AdditionalProperties {
+    	if needSeparator {
+    	    b = append(b, ',')
+    	}
+    	needSeparator = true
+	
+    	vBytes, err := json.Marshal(v)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
+	}
 
     // Close JSON and return
     return append(b, []byte("}")...) , nil
-- 
2.43.0


From b54aae4b48963366f0ef935b1d2ea5f3211dd17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 08/60] fix: return the error when a reply can not be received
 anymore

Requests (and v2 WaitFor) looped forever when their context was done or when
their subscription was canceled.
---
 pkg/codegen/generators/v2/templates/controller.tmpl | 1 +
 pkg/codegen/generators/v3/templates/controller.tmpl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..229f45f 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -365,6 +365,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{(channelToMessage $value "subscribe").Name}}{}, err
         }
 
         // Continue if the message hasn't been received
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..6538b87 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -444,6 +444,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{channelToMessageTypeName .Reply.Channel}}{}, err
         }
 
         // Continue if the message hasn't been received
-- 
2.43.0


From 00c54c7bf92f2ed1148cb1d5feae6d619c89d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 09/60] fix: correctly marshal and unmarshal additional
 properties of any name and type

Names that Go and JSON do not quote in the same way generated an invalid JSON,
and a declared property with a type different from the additional properties
could not be unmarshaled.
---
 .../marshaling/additional_properties.tmpl          | 14 +++++++++++---
 .../marshaling/additional_properties.tmpl          | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index d520a29..9d28939 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -27,7 +27,11 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     	if err != nil {
     	    return nil, err
     	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	b = append(b, fmt.Sprintf("%s:%s", kBytes, vBytes)...)
 	}
 
     // Close JSON and return
@@ -39,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -61,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..9d28939 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -27,7 +27,11 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     	if err != nil {
     	    return nil, err
     	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	b = append(b, fmt.Sprintf("%s:%s", kBytes, vBytes)...)
 	}
 
     // Close JSON and return
@@ -39,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -61,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var value {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &value); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = value
         }
     }
 
-- 
2.43.0


From 5fb75374a312d8ce9815e645b0662953a1a46c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 10/60] fix: allow several operations to reply on the same
 channel

---
 pkg/codegen/generators/v3/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..2caf11f 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -43,8 +43,8 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 
 		// Add a artificial operation for reply if the controller should respond to a reply
 		if shouldControllerRespondToReply(side, op) {
-			ch := op.Reply.Channel.Follow()
-			ao.Send[ch.Name] = op.ReplyIs
+			// NOTE: named after the operation as several ones can have the same reply channel
+			ao.Send[op.ReplyIs.Name] = op.ReplyIs
 		}
 	}
 
-- 
2.43.0


From addc1c7a00a8073a49d680273f94ed97eafc7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 11/60] fix: follow asyncapi v3 messages references until the
 actual message

Operations messages referencing channels messages, themselves referencing the
components messages, generated code that does not compile.
---
 pkg/asyncapi/v3/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..d5d19b1 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -489,7 +489,7 @@ func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) er
 // Follow returns referenced message if specified or the actual message.
 func (msg *Message) Follow() *Message {
 	if msg.ReferenceTo != nil {
-		return msg.ReferenceTo
+		return msg.ReferenceTo.Follow()
 	}
 	return msg
 }
-- 
2.43.0


From 12a851b91f97baa6f179f00220e7f885e5100d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 12/60] fix: allow % in addresses of channels with parameters

---
 pkg/codegen/generators/v2/templates/helpers.go | 2 +-
 pkg/codegen/generators/v3/templates/helpers.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..6102618 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -114,7 +114,7 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Path, "%", "%%"), "%v")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..51de7fb 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -117,7 +117,7 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Address, "%", "%%"), "%s")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-- 
2.43.0


From cc395c01f90daf5599f63918d98e85aece38d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 13/60] fix: unsubscribe from channels with parameters when
 closing or unsubscribing from all channels

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 8 ++++++++
 pkg/codegen/generators/v3/templates/controller.tmpl | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 229f45f..2436948 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -127,6 +127,14 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
     c.Unsubscribe{{operationName $value}}(ctx)
     {{- end}}
     {{- end}}
+
+    // Unsubscribe from the remaining channels (i.e. channels with parameters)
+    for addr, sub := range c.subscriptions {
+        ctx := add{{ $.Prefix }}ContextValues(ctx, addr)
+        sub.Cancel(ctx)
+        delete(c.subscriptions, addr)
+        c.logger.Info(ctx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 6538b87..109333e 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -128,6 +128,14 @@ func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context
     c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
     {{- end}}
     {{- end}}
+
+    // Unsubscribe from the remaining channels (i.e. channels with parameters)
+    for addr, sub := range c.subscriptions {
+        ctx := add{{ $.Prefix }}ContextValues(ctx, addr)
+        sub.Cancel(ctx)
+        delete(c.subscriptions, addr)
+        c.logger.Info(ctx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
-- 
2.43.0


From 95b65e31f6a782ce7a3670a2571e73342d6e1848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 14/60] fix: return an error on dangling references instead of
 panicking

---
 pkg/asyncapi/v2/message.go       | 2 +-
 pkg/asyncapi/v2/operation.go     | 9 ++++-----
 pkg/asyncapi/v2/schema.go        | 2 +-
 pkg/asyncapi/v2/specification.go | 3 +++
 pkg/asyncapi/v3/message.go       | 2 +-
 pkg/asyncapi/v3/schema.go        | 2 +-
 pkg/asyncapi/v3/specification.go | 8 +++++++-
 7 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..51e09a7 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -304,7 +304,7 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if msg == nil || len(ref) == 0 {
 		return msg
 	}
 
diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index be5a925..03341a9 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -25,11 +25,10 @@ func (op *Operation) generateMetadata(name string) error {
 	op.Name = template.Namify(name)
 
 	// Get message name
-	var msgName string
-	if op.Message.Reference != "" {
-		msgName = strings.Split(op.Message.Reference, "/")[3]
-	} else {
-		msgName = op.Name
+	// NOTE: invalid references are reported when setting dependencies
+	msgName := op.Name
+	if path := strings.Split(op.Message.Reference, "/"); len(path) > 3 {
+		msgName = path[3]
 	}
 
 	// Generate message metadata
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..d7a8d37 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -306,7 +306,7 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..8e36294 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -237,6 +237,9 @@ func (s Specification) reference(ref string) (any, error) {
 
 	switch refPath[0] {
 	case "components":
+		if len(refPath) < 3 {
+			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "messages":
 			msg := usedSpec.Components.Messages[refPath[2]]
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index d5d19b1..2ad7ff9 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -383,7 +383,7 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if msg == nil || len(ref) == 0 {
 		return msg
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..8576cd3 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -309,7 +309,7 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..50868ca 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -691,6 +691,9 @@ func (s Specification) reference(ref string) (any, error) {
 
 	switch refPath[0] {
 	case "components":
+		if len(refPath) < 3 {
+			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "schemas":
 			schema := usedSpec.Components.Schemas[refPath[2]]
@@ -736,8 +739,11 @@ func (s Specification) reference(ref string) (any, error) {
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
 	case "channels":
-		if len(refPath) < 3 {
+		switch {
+		case len(refPath) == 2:
 			return usedSpec.Channels[refPath[1]], nil
+		case len(refPath) < 4 || usedSpec.Channels[refPath[1]] == nil:
+			return nil, fmt.Errorf("%w: reference %q has no target", ErrInvalidReference, ref)
 		}
 		switch refPath[2] {
 		case "messages":
-- 
2.43.0


From 657e6fca541bcd0c91ce702bac7edb8240d8c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 15/60] fix: complete referenced schemas, messages and traits
 before using them

Merging (allOf, anyOf, oneOf, traits) with a referenced object that was not
processed yet randomly lost some of its fields, as maps are iterated.
---
 pkg/asyncapi/v2/message.go       | 15 +++++++++++++++
 pkg/asyncapi/v2/schema.go        | 15 +++++++++++++++
 pkg/asyncapi/v3/message.go       | 12 +++++++++---
 pkg/asyncapi/v3/message_trait.go | 12 +++++++++---
 pkg/asyncapi/v3/schema.go        | 14 ++++++++++++--
 5 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 51e09a7..4b2731f 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -49,6 +49,10 @@ type Message struct {
 	Name        string   `json:"-"`
 	ReferenceTo *Message `json:"-"`
 
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a message can be reached from its parent and from the references to it.
+	dependenciesSet bool
+
 	// CorrelationIDLocation will indicate where the correlation id is
 	// According to: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIDObject
 	CorrelationIDLocation string `json:"-"`
@@ -83,6 +87,12 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
+	// Do nothing if already done
+	if msg.dependenciesSet {
+		return nil
+	}
+	msg.dependenciesSet = true
+
 	// Set Payload dependencies
 	if msg.Payload != nil {
 		if err := msg.Payload.setDependencies(spec); err != nil {
@@ -97,6 +107,11 @@ func (msg *Message) setDependencies(spec Specification) error {
 			return err
 		}
 		msg.ReferenceTo = refTo
+
+		// Be sure that the referenced message is complete before using it
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set Headers dependencies
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index d7a8d37..000af08 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -43,6 +43,10 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a schema can be reached from its parent and from the references to it.
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -116,6 +120,12 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Do nothing if already done
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Reference to another schema if specified
 	if s.Reference != "" {
 		refTo, err := spec.ReferenceSchema(s.Reference)
@@ -123,6 +133,11 @@ func (s *Schema) setDependencies(spec Specification) error {
 			return err
 		}
 		s.ReferenceTo = refTo
+
+		// Be sure that the referenced schema is complete before using it
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 		s.setValidationsFromReferenced(refTo)
 	}
 
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 2ad7ff9..8e579a6 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -57,6 +57,10 @@ type Message struct {
 
 	ReferenceTo *Message `json:"-"`
 
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a message can be reached from its parent and from the references to it.
+	dependenciesSet bool
+
 	// CorrelationIDLocation will indicate where the correlation id is
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDRequired bool `json:"-"`
@@ -114,10 +118,11 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 
 // setDependencies sets dependencies between the different elements of the Message.
 func (msg *Message) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if msg == nil {
+	// Prevent modification if nil or already done
+	if msg == nil || msg.dependenciesSet {
 		return nil
 	}
+	msg.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if err := msg.setReference(spec); err != nil {
@@ -174,7 +179,8 @@ func (msg *Message) setReference(spec Specification) error {
 	}
 	msg.ReferenceTo = refMsg
 
-	return nil
+	// Be sure that the referenced message is complete before using it
+	return refMsg.setDependencies(spec)
 }
 
 func (msg *Message) generateTagsMetadata() {
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 821a2ef..75cd43d 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -24,6 +24,10 @@ type MessageTrait struct {
 
 	ReferenceTo *MessageTrait `json:"-"`
 
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a trait can be reached from its parent and from the references to it.
+	dependenciesSet bool
+
 	// CorrelationIDLocation will indicate where the correlation id is
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDLocation string `json:"-"`
@@ -73,10 +77,11 @@ func (mt *MessageTrait) generateMetadata(parentName, name string, number *int) e
 //
 //nolint:cyclop
 func (mt *MessageTrait) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if mt == nil {
+	// Prevent modification if nil or already done
+	if mt == nil || mt.dependenciesSet {
 		return nil
 	}
+	mt.dependenciesSet = true
 
 	// Set reference
 	if err := mt.setReference(spec); err != nil {
@@ -131,7 +136,8 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 	}
 	mt.ReferenceTo = refTo
 
-	return nil
+	// Be sure that the referenced trait is complete before using it
+	return refTo.setDependencies(spec)
 }
 
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 8576cd3..d8d904e 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -60,6 +60,10 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a schema can be reached from its parent and from the references to it.
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -169,10 +173,11 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if s == nil {
+	// Prevent modification if nil or already done
+	if s == nil || s.dependenciesSet {
 		return nil
 	}
+	s.dependenciesSet = true
 
 	// Set reference
 	if err := s.setReference(spec); err != nil {
@@ -298,6 +303,11 @@ func (s *Schema) setReference(spec Specification) error {
 		return err
 	}
 	s.ReferenceTo = refTo
+
+	// Be sure that the referenced schema is complete before using it
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
 	s.Validations.Merge(refTo.Validations)
 
 	return nil
-- 
2.43.0


From 9cea6f2fbef6049aecb6d5728a189163a9a62918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 16/60] fix: generate the same code each time from the same
 specification

---
 pkg/asyncapi/v2/extensions.go |  2 ++
 pkg/asyncapi/v3/channel.go    |  3 ++-
 pkg/asyncapi/v3/extensions.go |  2 ++
 pkg/utils/map.go              | 19 +++++++++++++++----
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..7f8703c 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv2
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -114,5 +115,6 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+	sort.Strings(imports)
 	return imports
 }
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..4fdee6f 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -154,7 +155,7 @@ func (ch *Channel) Follow() *Channel {
 
 // GetMessage will return the channel message.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
+	for _, m := range utils.MapToList(ch.Follow().Messages) {
 		return m.Follow(), nil // TODO: change
 	}
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..646c84a 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -108,5 +109,6 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+	sort.Strings(imports)
 	return imports
 }
diff --git a/pkg/utils/map.go b/pkg/utils/map.go
index 3459302..83a2042 100644
--- a/pkg/utils/map.go
+++ b/pkg/utils/map.go
@@ -1,10 +1,21 @@
 package utils
 
-// MapToList will change a map to a list.
-func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
+import (
+	"cmp"
+	"slices"
+)
+
+// MapToList will change a map to a list, ordered by the keys of the map.
+func MapToList[T1 cmp.Ordered, T2 any](m map[T1]T2) []T2 {
+	keys := make([]T1, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+
 	l := make([]T2, 0, len(m))
-	for _, v := range m {
-		l = append(l, v)
+	for _, k := range keys {
+		l = append(l, m[k])
 	}
 	return l
 }
-- 
2.43.0


From 2b624d84de36153c41c154be8393e4b31dbbf84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 17/60] fix: apply asyncapi v3 messages traits payloads and
 correlation IDs

---
 pkg/asyncapi/v3/message.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 8e579a6..8ddcaee 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -287,6 +287,12 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 		}
 	}
 
+	// Process correlation ID again, as it could come from a trait
+	if len(msg.Traits) > 0 {
+		msg.createCorrelationIDFieldIfMissing()
+		msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+	}
+
 	return nil
 }
 
@@ -598,7 +604,7 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 	}
 
 	// Merge payload
-	return msg.Headers.MergeWith(spec, *payload)
+	return msg.Payload.MergeWith(spec, *payload)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
-- 
2.43.0


From ff861eeb5ef0801e41989076425b8ffa6a27bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 18/60] fix: allow asyncapi v3 messages headers to be a
 reference

---
 pkg/asyncapi/v3/message.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 8ddcaee..70e1140 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -220,10 +220,19 @@ func (msg *Message) generateHeadersMetadata() error {
 		return nil
 	}
 
-	if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	return msg.Headers.generateMetadata(msg.Name, "Headers", nil, false)
+}
+
+func (msg *Message) setHeadersDependencies(spec Specification) error {
+	if msg.Headers == nil {
+		return nil
+	}
+
+	if err := msg.Headers.setDependencies(spec); err != nil {
 		return err
 	}
 
+	// Check Headers is an object, after processing
 	if msg.Headers.Follow().Type != SchemaTypeIsObject.String() {
 		return fmt.Errorf(
 			"%w: %q headers must be an object, is %q",
@@ -233,14 +242,6 @@ func (msg *Message) generateHeadersMetadata() error {
 	return nil
 }
 
-func (msg *Message) setHeadersDependencies(spec Specification) error {
-	if msg.Headers == nil {
-		return nil
-	}
-
-	return msg.Headers.setDependencies(spec)
-}
-
 func (msg *Message) generateOneOfMetadata() error {
 	for i, v := range msg.OneOf {
 		if err := v.generateMetadata(msg.Name, "", &i); err != nil {
-- 
2.43.0


From 8cd244010c58bcc89fbad3b694cf723f568aa1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 19/60] fix: do not share TLS and SASL options between kafka
 controllers

---
 pkg/extensions/brokers/kafka/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..8ab0553 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -46,12 +46,15 @@ type ControllerOption func(controller *Controller)
 
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
+	// Copy the default dialer, as options can modify it
+	dialer := *kafka.DefaultDialer
+
 	// Create default controller
 	controller := &Controller{
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         &dialer,
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From 0833b880eb0f8bcab24c55a73c3989e744ada97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 20/60] fix: make jetstream subscriptions safe with concurrent
 subscriptions, cancellations and consumption

The channels map was accessed by several goroutines without protection, messages
could be sent on a closed channel, and canceling two subscriptions of the same
channel was panicking.
---
 .../brokers/natsjetstream/natsjetstream.go    | 111 ++++++++++++++----
 1 file changed, 89 insertions(+), 22 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..554a1fa 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -26,11 +27,24 @@ type Controller struct {
 	streamName     string
 	consumerName   string
 	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
+	channels       map[string]*subscribedChannel
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
 	nakDelay time.Duration
+
+	// mutex protects channels and consumeContext
+	mutex sync.Mutex
+}
+
+// subscribedChannel is a channel that has, at least, one subscription.
+type subscribedChannel struct {
+	// messages are the messages consumed for this channel.
+	messages chan jetstream.Msg
+	// done is closed when there is no more subscription.
+	done chan struct{}
+	// subscriptions is the count of subscriptions.
+	subscriptions int
 }
 
 // NewController creates a new NATS JetStream controller.
@@ -39,7 +53,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*subscribedChannel),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -230,33 +244,66 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
-	}
+	subscribed := c.addSubscription(channel)
 	if err := c.ConsumeIfNeeded(ctx); err != nil {
+		c.removeSubscription(channel)
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	canceled := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case message := <-subscribed.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			case <-canceled:
+				return
+			}
 		}
 	}()
 
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
+		close(canceled)
+		c.removeSubscription(channel)
 		c.StopConsumeIfNeeded()
 	})
 
 	return sub, nil
 }
 
+// addSubscription registers a new subscription on the channel.
+func (c *Controller) addSubscription(channel string) *subscribedChannel {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if c.channels[channel] == nil {
+		c.channels[channel] = &subscribedChannel{
+			messages: make(chan jetstream.Msg),
+			done:     make(chan struct{}),
+		}
+	}
+	c.channels[channel].subscriptions++
+
+	return c.channels[channel]
+}
+
+// removeSubscription unregisters a subscription from the channel.
+func (c *Controller) removeSubscription(channel string) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.channels[channel].subscriptions--
+	if c.channels[channel].subscriptions == 0 {
+		close(c.channels[channel].done)
+		delete(c.channels, channel)
+	}
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -296,6 +343,9 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -313,6 +363,9 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -324,14 +377,8 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
-			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
-				break
-			}
-		}
-		if responsibleSubscription == "" {
+		responsibleSubscription := c.responsibleSubscription(msgSubj)
+		if responsibleSubscription == nil {
 			c.logger.Warning(
 				ctx,
 				fmt.Sprintf(
@@ -346,8 +393,28 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 
 			return
 		}
-		c.channels[responsibleSubscription] <- msg
+
+		// Give the message to the subscription, except if it is canceled
+		select {
+		case responsibleSubscription.messages <- msg:
+		case <-responsibleSubscription.done:
+		}
+	}
+}
+
+// responsibleSubscription returns the channel that should receive the messages
+// from this subject, or nil if there is none.
+func (c *Controller) responsibleSubscription(subject string) *subscribedChannel {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	for pattern, subscribed := range c.channels {
+		if MatchSubjectSubscription(pattern, subject) {
+			return subscribed
+		}
 	}
+
+	return nil
 }
 
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
-- 
2.43.0


From 2c3aa1364c4c53cc0d6ea421cad1c6f12aa0bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 21/60] fix: generate the fields of asyncapi v2 channels
 parameters

---
 pkg/asyncapi/v2/channel.go                    |  4 +++-
 pkg/asyncapi/v2/components.go                 |  4 +++-
 pkg/asyncapi/v2/parameter.go                  | 16 +++++++++++--
 .../generators/v2/templates/parameter.tmpl    | 24 +++++++++----------
 .../generators/v2/templates/types.tmpl        |  9 ++++---
 pkg/utils/template/helpers.go                 |  2 +-
 6 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 1bdff91..580d016 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -48,7 +48,9 @@ func (c *Channel) generateMetadata(path string) error {
 
 	// Generate parameters metadata
 	for n, p := range c.Parameters {
-		p.generateMetadata(n)
+		if err := p.generateMetadata(n); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index e207b73..f6d1be0 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -31,7 +31,9 @@ func (c *Components) generateMetadata() error {
 
 	// For all parameters, generate param metadata
 	for name, param := range c.Parameters {
-		param.generateMetadata(name + "_Parameter")
+		if err := param.generateMetadata(name + "_Parameter"); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..76bfb9b 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
@@ -20,9 +20,16 @@ type Parameter struct {
 }
 
 // generateMetadata generate metadata for the parameter.
-func (p *Parameter) generateMetadata(name string) {
+func (p *Parameter) generateMetadata(name string) error {
 	// Add parameter name
 	p.Name = template.Namify(name)
+
+	// Generate schema metadata if there is one
+	if p.Schema != nil {
+		return p.Schema.generateMetadata(name, true)
+	}
+
+	return nil
 }
 
 // setDependencies set dependencies for the parameter from specification.
@@ -36,5 +43,10 @@ func (p *Parameter) setDependencies(spec Specification) error {
 		p.ReferenceTo = refTo
 	}
 
+	// Set schema dependencies if there is one
+	if p.Schema != nil {
+		return p.Schema.setDependencies(spec)
+	}
+
 	return nil
 }
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index f714ad4..aec29d8 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -1,16 +1,16 @@
-{{define "parameter"}}
+{{define "parameter" -}}
 
-{{- if $.Description}}
-// Description: {{multiLineComment $.Description}}
-{{- end}}
+{{- /* Get type from reference if there is one */ -}}
+{{- if .ReferenceTo -}}
+{{ template "parameter" .ReferenceTo }}
 
-{{- /* Set parameter if defined */}}
-{{- if .Schema}}
-{{namify $.Name }} {{template "schema-name" $.Schema}}
+{{- /* Get type from schema if defined */ -}}
+{{- else if .Schema -}}
+{{ template "schema-name" .Schema }}
 
-{{- /* Set parameter from reference if defined */}}
-{{- else if .ReferenceTo }}
-{{- template "parameter" $.ReferenceTo}}
-{{end -}}
+{{- /* Parameters are strings by default */ -}}
+{{- else -}}
+string
+{{- end -}}
 
-{{- end}}
+{{- end -}}
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..5b2d371 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -59,10 +59,13 @@ func (e *Error) Error() string {
 {{range $key, $value := .Channels -}}
 
 {{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
+// {{ namifyWithoutParam $key }}Parameters represents {{ namify .Name }} channel parameters
+type {{ namifyWithoutParam $key }}Parameters struct {
 {{- range $key, $value := .Parameters}}
-    {{- template "parameter" $value}}
+    {{- if $value.Description}}
+    // Description: {{multiLineComment $value.Description}}
+    {{- end}}
+    {{ namify $key }} {{template "parameter" $value}}
 {{- end}}
 }
 {{end}}
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..0220606 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -32,7 +32,7 @@ var namify = namifyPerScheme["none"]
 // and will remove all parameters that can appear between '{' and '}'.
 func NamifyWithoutParams(sentence string) string {
 	// Remove parameters
-	re := regexp.MustCompile("{[^()]*}")
+	re := regexp.MustCompile("{[^{}]*}")
 	sentence = string(re.ReplaceAll([]byte(sentence), []byte("_")))
 
 	return namify(sentence)
-- 
2.43.0


From d2c8cca4a24241b397fde5f6745b52f4d26423d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 22/60] fix: support correlation IDs and reply addresses under
 optional, referenced or composed objects

---
 pkg/asyncapi/v2/message.go                    | 36 +++++--------
 pkg/asyncapi/v3/message.go                    | 51 +++++++------------
 .../generators/v2/templates/helpers.go        | 36 +++++++++++++
 .../generators/v2/templates/message.tmpl      | 37 ++++++++++----
 .../generators/v3/templates/controller.tmpl   | 30 ++++++-----
 .../generators/v3/templates/helpers.go        | 36 +++++++++++++
 .../generators/v3/templates/message.tmpl      | 37 ++++++++++----
 7 files changed, 172 insertions(+), 91 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 4b2731f..4a1a368 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -76,13 +76,7 @@ func (msg *Message) generateMetadata(name string) error {
 	}
 
 	// Generate OneOf metadata
-	if err := msg.generateOneOfMetadata(); err != nil {
-		return err
-	}
-
-	// Generate CorrelationID metadata
-	msg.generateCorrelationIDMetadata()
-	return nil
+	return msg.generateOneOfMetadata()
 }
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
@@ -167,6 +161,9 @@ func (msg *Message) generateCorrelationIDMetadata() {
 }
 
 func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
+	// Generate CorrelationID metadata, now that headers and payload are complete
+	msg.generateCorrelationIDMetadata()
+
 	loc, err := msg.getCorrelationIDLocation(spec)
 	if err != nil {
 		return err
@@ -267,24 +264,15 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 		placeholder = &msg.Payload
 	}
 
-	var child *Schema
-	switch {
-	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
-		// Use it as child
-		child = (*placeholder).ReferenceTo
-	case (*placeholder) == nil: // If there is no header and no reference
-		// Create a default one for the message
+	// Create a default one for the message if there is none
+	if (*placeholder) == nil {
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		(*placeholder).Name = template.Namify(msg.Name + "_" + t.String())
 		(*placeholder).Type = SchemaTypeIsObject.String()
-		fallthrough
-	default:
-		// Set the child as the message headers
-		child = (*placeholder)
 	}
 
 	// Go down the path to correlation ID
-	return msg.downToCorrelationID(child)
+	return msg.downToCorrelationID(*placeholder)
 }
 
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
@@ -292,19 +280,19 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
-		// Keep the parent
-		correlationIDParent = child
+		// Keep the parent, behind references if there are some
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = template.Namify(correlationIDParent.Name + "_" + v)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 70e1140..445f9d4 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -105,15 +105,7 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 	msg.generateExamplesMetadata()
 
 	// Generate traits metadata
-	if err := msg.generateTraitsMetadata(); err != nil {
-		return err
-	}
-
-	// Process correlation ID
-	msg.createCorrelationIDFieldIfMissing()
-	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-
-	return nil
+	return msg.generateTraitsMetadata()
 }
 
 // setDependencies sets dependencies between the different elements of the Message.
@@ -165,7 +157,15 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Process correlation ID, now that headers, payload and traits are complete
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) setReference(spec Specification) error {
@@ -288,12 +288,6 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 		}
 	}
 
-	// Process correlation ID again, as it could come from a trait
-	if len(msg.Traits) > 0 {
-		msg.createCorrelationIDFieldIfMissing()
-		msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-	}
-
 	return nil
 }
 
@@ -344,24 +338,15 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 		placeholder = &msg.Payload
 	}
 
-	var child *Schema
-	switch {
-	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
-		// Use it as child
-		child = (*placeholder).ReferenceTo
-	case (*placeholder) == nil: // If there is no header and no reference
-		// Create a default one for the message
+	// Create a default one for the message if there is none
+	if (*placeholder) == nil {
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		(*placeholder).Name = generateFullName(msg.Name, t.String(), "", nil)
 		(*placeholder).Type = SchemaTypeIsObject.String()
-		fallthrough
-	default:
-		// Set the child as the message headers
-		child = (*placeholder)
 	}
 
 	// Go down the path to correlation ID
-	return msg.downToLocation(child, location)
+	return msg.downToLocation(*placeholder, location)
 }
 
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
@@ -369,19 +354,19 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
-		// Keep the parent
-		locationParent = child
+		// Keep the parent, behind references if there are some
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 6102618..17d2a70 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -152,6 +152,41 @@ func ForcePointerOnFields() {
 	}
 }
 
+// LocationStep is a step of the path from a message to one of its fields.
+type LocationStep struct {
+	// Path is the path of the struct attribute, from the message
+	Path string
+	// Schema is the schema of the attribute
+	Schema *asyncapi.Schema
+	// IsPointer tells if the attribute is a pointer
+	IsPointer bool
+}
+
+// GetLocationSteps returns the steps from the message to the field that is at the
+// given location, without the headers or the payload.
+func GetLocationSteps(msg asyncapi.Message, location string) []LocationStep {
+	path := strings.Split(location, "/")
+	field, parent := "Payload", msg.Payload
+	if strings.HasPrefix(location, "$message.header#") {
+		field, parent = "Headers", msg.Headers
+	}
+
+	steps := make([]LocationStep, 0, len(path))
+	for _, key := range path[1:] {
+		parent = parent.Follow()
+		schema := parent.Properties[key]
+		field += "." + templateutil.Namify(key)
+		steps = append(steps, LocationStep{
+			Path:      field,
+			Schema:    schema,
+			IsPointer: isFieldPointer(*parent, key, *schema),
+		})
+		parent = schema
+	}
+
+	return steps
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -160,6 +195,7 @@ func HelpersFunctions() template.FuncMap {
 		"channelToMessage":               ChannelToMessage,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"getLocationSteps":               GetLocationSteps,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"operationName":                  OperationName,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 11419f3..0f43722 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -34,8 +34,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
-    u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.SetCorrelationID(uuid.New().String())
     {{- end}}
 
     return msg
@@ -273,28 +272,44 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
-        return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
-    {{- else -}}
-    if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
-        return *msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+    {{- $steps := getLocationSteps $ $.CorrelationIDLocation}}
+    {{- $last := len (slice $steps 1)}}
+    {{- range $i, $step := $steps}}
+    {{- if $step.IsPointer}}
+    if msg.{{$step.Path}} == nil {
+        return ""
     }
+    {{- end}}
+    {{- end}}
 
-    return ""
+    {{with index $steps $last -}}
+    return {{if .IsPointer}}*{{end}}msg.{{.Path}}
     {{- end}}
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    {{- range $i, $step := $steps}}
+    {{- if eq $i $last}}
+    msg.{{$step.Path}} = {{if $step.IsPointer}}&{{end}}id
+    {{- else if $step.IsPointer}}
+    {{- /* Work on a copy, as copies of the message share the same pointers */}}
+    {
+        var v {{template "schema-name" $step.Schema}}
+        if msg.{{$step.Path}} != nil {
+            v = *msg.{{$step.Path}}
+        }
+        msg.{{$step.Path}} = &v
+    }
+    {{- end}}
+    {{- end}}
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 109333e..617f91b 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -272,13 +272,16 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
-            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- else }}
-            if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+        {{- $steps := getLocationSteps $value.GetMessage.Follow .Reply.Address.Location }}
+        {{- range $steps}}
+            {{- if .IsPointer}}
+            if recvMsg.{{.Path}} == nil {
+                return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            {{- end}}
+        {{- end}}
+        {{- with index $steps (len (slice $steps 1)) }}
+            chanAddr := {{if .IsPointer}}*{{end}}recvMsg.{{.Path}}
         {{- end }}
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
@@ -400,13 +403,16 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 ) ({{channelToMessageTypeName .Reply.Channel}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
-            addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- else }}
-            if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+        {{- $steps := getLocationSteps $value.GetMessage.Follow .Reply.Address.Location }}
+        {{- range $steps}}
+            {{- if .IsPointer}}
+            if msg.{{.Path}} == nil {
+                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            {{- end}}
+        {{- end}}
+        {{- with index $steps (len (slice $steps 1)) }}
+            addr := {{if .IsPointer}}*{{end}}msg.{{.Path}}
         {{- end }}
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 51de7fb..4128b5a 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -138,6 +138,41 @@ func ForcePointerOnFields() {
 	}
 }
 
+// LocationStep is a step of the path from a message to one of its fields.
+type LocationStep struct {
+	// Path is the path of the struct attribute, from the message
+	Path string
+	// Schema is the schema of the attribute
+	Schema *asyncapi.Schema
+	// IsPointer tells if the attribute is a pointer
+	IsPointer bool
+}
+
+// GetLocationSteps returns the steps from the message to the field that is at the
+// given location, without the headers or the payload.
+func GetLocationSteps(msg asyncapi.Message, location string) []LocationStep {
+	path := strings.Split(location, "/")
+	field, parent := "Payload", msg.Payload
+	if strings.HasPrefix(location, "$message.header#") {
+		field, parent = "Headers", msg.Headers
+	}
+
+	steps := make([]LocationStep, 0, len(path))
+	for _, key := range path[1:] {
+		parent = parent.Follow()
+		schema := parent.Properties[key]
+		field += "." + templateutil.Namify(key)
+		steps = append(steps, LocationStep{
+			Path:      field,
+			Schema:    schema,
+			IsPointer: isFieldPointer(*parent, key, *schema),
+		})
+		parent = schema
+	}
+
+	return steps
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -148,6 +183,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"getLocationSteps":               GetLocationSteps,
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 58ed250..8a2c840 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -43,8 +43,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
-    u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.SetCorrelationID(uuid.New().String())
     {{- end}}
 
     return msg
@@ -291,28 +290,44 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
-        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
-    {{- else -}}
-    if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
-        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+    {{- $steps := getLocationSteps $ $.Follow.CorrelationID.Location}}
+    {{- $last := len (slice $steps 1)}}
+    {{- range $i, $step := $steps}}
+    {{- if $step.IsPointer}}
+    if msg.{{$step.Path}} == nil {
+        return ""
     }
+    {{- end}}
+    {{- end}}
 
-    return ""
+    {{with index $steps $last -}}
+    return {{if .IsPointer}}*{{end}}msg.{{.Path}}
     {{- end}}
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    {{- range $i, $step := $steps}}
+    {{- if eq $i $last}}
+    msg.{{$step.Path}} = {{if $step.IsPointer}}&{{end}}id
+    {{- else if $step.IsPointer}}
+    {{- /* Work on a copy, as copies of the message share the same pointers */}}
+    {
+        var v {{template "schema-name" $step.Schema}}
+        if msg.{{$step.Path}} != nil {
+            v = *msg.{{$step.Path}}
+        }
+        msg.{{$step.Path}} = &v
+    }
+    {{- end}}
+    {{- end}}
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
 
-- 
2.43.0


From c442fa94481e5bf19f3c6f0a01e458473741c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 23/60] fix: refuse empty reply addresses instead of using the
 empty channel (v3)

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 617f91b..4d2df33 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -283,6 +283,9 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
         {{- with index $steps (len (slice $steps 1)) }}
             chanAddr := {{if .IsPointer}}*{{end}}recvMsg.{{.Path}}
         {{- end }}
+        if chanAddr == "" {
+            return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+        }
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
     {{- else }}
@@ -414,6 +417,9 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         {{- with index $steps (len (slice $steps 1)) }}
             addr := {{if .IsPointer}}*{{end}}msg.{{.Path}}
         {{- end }}
+        if addr == "" {
+            return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+        }
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
     {{- end }}
-- 
2.43.0


From fac1fd5d2a4b5d80ad22df0be4b416485d93fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 24/60] fix: quote the channel addresses in the generated
 constants

---
 pkg/codegen/generators/v2/templates/types.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/types.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index 5b2d371..c4b4ea4 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -91,7 +91,7 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
-    {{ namifyWithoutParam .Name }}Path = "{{$key}}"
+    {{ namifyWithoutParam .Name }}Path = {{ printf "%q" $key }}
 {{- end}}
 )
 
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index d247648..6f1b531 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = "{{ .Follow.Address }}"
+    {{ namifyWithoutParam .Follow.Name }}Path = {{ printf "%q" .Follow.Address }}
 {{- end}}
 )
 
-- 
2.43.0


From aff4693b4e6a28629559f3f386545adaa9a3220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 25/60] fix: do not write in the slice of the caller when
 logging

---
 pkg/extensions/loggers/ecs.go  | 3 ++-
 pkg/extensions/loggers/text.go | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/loggers/ecs.go b/pkg/extensions/loggers/ecs.go
index 8450f46..044f70f 100644
--- a/pkg/extensions/loggers/ecs.go
+++ b/pkg/extensions/loggers/ecs.go
@@ -75,7 +75,8 @@ func (ecs ECS) formatLog(ctx context.Context, msg string, info ...extensions.Log
 
 func (ecs ECS) logWithLevel(ctx context.Context, level string, msg string, info ...extensions.LogInfo) {
 	// Add additional keys
-	info = append(info, extensions.LogInfo{Key: "log.level", Value: level})
+	// NOTE: capacity is limited to not write in the slice of the caller
+	info = append(info[:len(info):len(info)], extensions.LogInfo{Key: "log.level", Value: level})
 
 	// Print log
 	fmt.Println(ecs.formatLog(ctx, msg, info...))
diff --git a/pkg/extensions/loggers/text.go b/pkg/extensions/loggers/text.go
index cde8e9f..8541eed 100644
--- a/pkg/extensions/loggers/text.go
+++ b/pkg/extensions/loggers/text.go
@@ -68,6 +68,9 @@ func (tl Text) humanizeStructuredLogs(sl map[string]any, msgFmt *color.Color, pr
 }
 
 func (tl Text) setInfoFromContext(ctx context.Context, msg string, info ...extensions.LogInfo) []extensions.LogInfo {
+	// Limit the capacity to not write in the slice of the caller
+	info = info[:len(info):len(info)]
+
 	// Add additional keys from context
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsChannel, func(value any) {
 		info = append(info, extensions.LogInfo{Key: "Channel", Value: value})
-- 
2.43.0


From b40f3468a9a2d2743cb8f41f293f54f21d083815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 26/60] fix: do not define twice the objects of the arrays of
 composed schemas

---
 pkg/asyncapi/v2/schema.go | 31 +++++++++++++++++++++----------
 pkg/asyncapi/v3/schema.go | 31 +++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 000af08..35e73f6 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -462,16 +462,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.shared()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -480,6 +471,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// shared returns a schema equivalent to this one, that can be used elsewhere
+// without defining again the objects of this one.
+func (s *Schema) shared() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.shared()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index d8d904e..df3d0d1 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -460,16 +460,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.shared()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -478,6 +469,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// shared returns a schema equivalent to this one, that can be used elsewhere
+// without defining again the objects of this one.
+func (s *Schema) shared() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.shared()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-- 
2.43.0


From 66cecda0ad39a96da562824dad523ab65b86456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 27/60] fix: follow the references over references, in headers
 too

---
 pkg/asyncapi/v2/message.go                    |  3 +
 pkg/asyncapi/v2/parameter.go                  |  3 +
 pkg/asyncapi/v2/schema.go                     | 10 +-
 pkg/asyncapi/v2/specification.go              | 12 +++
 pkg/asyncapi/v3/channel.go                    |  4 +-
 pkg/asyncapi/v3/message.go                    |  3 +
 pkg/asyncapi/v3/message_trait.go              |  5 +-
 pkg/asyncapi/v3/operation.go                  |  4 +-
 pkg/asyncapi/v3/operation_reply.go            |  5 +-
 pkg/asyncapi/v3/operation_trait.go            |  5 +-
 pkg/asyncapi/v3/schema.go                     | 10 +-
 pkg/asyncapi/v3/specification.go              | 12 +++
 .../generators/v2/templates/message.tmpl      | 87 ++++++-----------
 .../v2/templates/schema_definition.tmpl       |  3 +-
 .../generators/v3/templates/message.tmpl      | 95 ++++++-------------
 .../v3/templates/schema_definition.tmpl       |  3 +-
 16 files changed, 133 insertions(+), 131 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 4a1a368..b349545 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -101,6 +101,9 @@ func (msg *Message) setDependencies(spec Specification) error {
 			return err
 		}
 		msg.ReferenceTo = refTo
+		if err := checkReferences(msg.Reference, msg, func(r *Message) *Message { return r.ReferenceTo }); err != nil {
+			return err
+		}
 
 		// Be sure that the referenced message is complete before using it
 		if err := refTo.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 76bfb9b..3e698d8 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -41,6 +41,9 @@ func (p *Parameter) setDependencies(spec Specification) error {
 			return err
 		}
 		p.ReferenceTo = refTo
+		if err := checkReferences(p.Reference, p, func(r *Parameter) *Parameter { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	// Set schema dependencies if there is one
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 35e73f6..9da6dc1 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -133,6 +133,9 @@ func (s *Schema) setDependencies(spec Specification) error {
 			return err
 		}
 		s.ReferenceTo = refTo
+		if err := checkReferences(s.Reference, s, func(r *Schema) *Schema { return r.ReferenceTo }); err != nil {
+			return err
+		}
 
 		// Be sure that the referenced schema is complete before using it
 		if err := refTo.setDependencies(spec); err != nil {
@@ -337,6 +340,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Use the final schema, if there are several references before it
+	if s2.ReferenceTo != nil {
+		s2.ReferenceTo = s2.ReferenceTo.Follow()
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
@@ -494,7 +502,7 @@ func (s *Schema) shared() *Schema {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 8e36294..0882ec1 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -273,3 +273,15 @@ func FromUnknownVersion(s asyncapi.Specification) (*Specification, error) {
 
 	return spec, nil
 }
+
+// checkReferences returns an error if following the references of an element
+// leads back to it.
+func checkReferences[T comparable](ref string, element T, next func(T) T) error {
+	var none T
+	for e := next(element); e != none; e = next(e) {
+		if e == element {
+			return fmt.Errorf("%w: %q references itself", ErrInvalidReference, ref)
+		}
+	}
+	return nil
+}
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 4fdee6f..d8172ef 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -142,13 +142,13 @@ func (ch *Channel) setReference(spec Specification) error {
 	}
 	ch.ReferenceTo = refTo
 
-	return nil
+	return checkReferences(ch.Reference, ch, func(r *Channel) *Channel { return r.ReferenceTo })
 }
 
 // Follow returns referenced channel if specified or the actual channel.
 func (ch *Channel) Follow() *Channel {
 	if ch.ReferenceTo != nil {
-		return ch.ReferenceTo
+		return ch.ReferenceTo.Follow()
 	}
 	return ch
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 445f9d4..8a97987 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -178,6 +178,9 @@ func (msg *Message) setReference(spec Specification) error {
 		return err
 	}
 	msg.ReferenceTo = refMsg
+	if err := checkReferences(msg.Reference, msg, func(r *Message) *Message { return r.ReferenceTo }); err != nil {
+		return err
+	}
 
 	// Be sure that the referenced message is complete before using it
 	return refMsg.setDependencies(spec)
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 75cd43d..9465baf 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -135,6 +135,9 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 		return err
 	}
 	mt.ReferenceTo = refTo
+	if err := checkReferences(mt.Reference, mt, func(r *MessageTrait) *MessageTrait { return r.ReferenceTo }); err != nil {
+		return err
+	}
 
 	// Be sure that the referenced trait is complete before using it
 	return refTo.setDependencies(spec)
@@ -143,7 +146,7 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (mt *MessageTrait) Follow() *MessageTrait {
 	if mt.ReferenceTo != nil {
-		return mt.ReferenceTo
+		return mt.ReferenceTo.Follow()
 	}
 	return mt
 }
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8f95f64..4b91fb0 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -152,7 +152,7 @@ func (op *Operation) setReference(spec Specification) error {
 	}
 	op.ReferenceTo = refTo
 
-	return nil
+	return checkReferences(op.Reference, op, func(r *Operation) *Operation { return r.ReferenceTo })
 }
 
 func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
@@ -237,7 +237,7 @@ func (op *Operation) ApplyTrait(ot *OperationTrait, spec Specification) {
 // Follow returns referenced operation if specified or the actual operation.
 func (op *Operation) Follow() *Operation {
 	if op.ReferenceTo != nil {
-		return op.ReferenceTo
+		return op.ReferenceTo.Follow()
 	}
 	return op
 }
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 1bbb975..34cee6b 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -47,6 +47,9 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 			return err
 		}
 		or.ReferenceTo = refTo
+		if err := checkReferences(or.Reference, or, func(r *OperationReply) *OperationReply { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	// Set channel dependencies if there is one
@@ -72,7 +75,7 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 // Follow returns referenced operation if specified or the actual operation.
 func (or *OperationReply) Follow() *OperationReply {
 	if or.ReferenceTo != nil {
-		return or.ReferenceTo
+		return or.ReferenceTo.Follow()
 	}
 	return or
 }
diff --git a/pkg/asyncapi/v3/operation_trait.go b/pkg/asyncapi/v3/operation_trait.go
index dd409ca..b4daa70 100644
--- a/pkg/asyncapi/v3/operation_trait.go
+++ b/pkg/asyncapi/v3/operation_trait.go
@@ -62,6 +62,9 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 			return err
 		}
 		ot.ReferenceTo = refTo
+		if err := checkReferences(ot.Reference, ot, func(r *OperationTrait) *OperationTrait { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	// Set securities dependencies
@@ -90,7 +93,7 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (ot *OperationTrait) Follow() *OperationTrait {
 	if ot.ReferenceTo != nil {
-		return ot.ReferenceTo
+		return ot.ReferenceTo.Follow()
 	}
 	return ot
 }
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index df3d0d1..8418589 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -303,6 +303,9 @@ func (s *Schema) setReference(spec Specification) error {
 		return err
 	}
 	s.ReferenceTo = refTo
+	if err := checkReferences(s.Reference, s, func(r *Schema) *Schema { return r.ReferenceTo }); err != nil {
+		return err
+	}
 
 	// Be sure that the referenced schema is complete before using it
 	if err := refTo.setDependencies(spec); err != nil {
@@ -335,6 +338,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Use the final schema, if there are several references before it
+	if s2.ReferenceTo != nil {
+		s2.ReferenceTo = s2.ReferenceTo.Follow()
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
@@ -492,7 +500,7 @@ func (s *Schema) shared() *Schema {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 50868ca..88075f3 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -773,3 +773,15 @@ func FromUnknownVersion(s asyncapi.Specification) (*Specification, error) {
 
 	return spec, nil
 }
+
+// checkReferences returns an error if following the references of an element
+// leads back to it.
+func checkReferences[T comparable](ref string, element T, next func(T) T) error {
+	var none T
+	for e := next(element); e != none; e = next(e) {
+		if e == element {
+			return fmt.Errorf("%w: %q references itself", ErrInvalidReference, ref)
+		}
+	}
+	return nil
+}
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 0f43722..b573221 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -45,10 +45,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     var msg {{namify .Name}}
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
@@ -100,7 +97,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
+            msg.Payload = {{template "schema-name" .Payload}}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
@@ -112,46 +109,29 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         switch {
 
             {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
+            {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
+            {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        h := {{$value.Type}}(v)
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
+                {{- $isPointer := isFieldPointer $headers $key $value }}
+                {{- if eq $header.Type "object" }}
+                    err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return msg, err
+                    }
+                {{- else if isDateOrDateTimeGenerated $header.Format }}
+                    t, err := time.Parse(time.RFC3339, string(v))
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(t)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                    {{- end}}
+                    h := {{template "schema-name" $value}}(v)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
                 {{- end}}
             {{- end}}
         default:
@@ -170,10 +150,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     // TODO: implement checks on message
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
     {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
@@ -195,14 +172,14 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
@@ -211,16 +188,14 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{/* Handle headers, if defined */}}
     {{ if .Headers -}}
         {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
         {{- $headers := .Headers -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
+            {{- $header := $value.Follow}}
 
             // Adding {{ namify $key}} header
             {{- if $value.IsRequired }}
@@ -231,27 +206,27 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                     }
                 {{- end -}}
-                {{- if eq $value.Type "object" }}
+                {{- if eq $header.Type "object" }}
                     h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
                     if err != nil {
                         return extensions.BrokerMessage{}, err
                     }
                     headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                {{- else if isDateOrDateTimeGenerated $header.Format }}
+                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
                 {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
             {{- else}}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
+                    {{- if eq $header.Type "object" }}
                         h, err := json.Marshal(*msg.Headers.{{ namify $key}})
                         if err != nil {
                             return extensions.BrokerMessage{}, err
                         }
                         headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                    {{- else if isDateOrDateTimeGenerated $header.Format }}
+                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339))
                     {{- else }}
                         headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index eab7057..df928ab 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -32,7 +32,8 @@ type {{ namify .Name }} struct {
 {{- /* ----------------------------- Others ----------------------------- */ -}}
 {{- else -}}
 
-type {{ .Name }} {{template "schema-name" .}}
+{{- /* Use an alias for references, in order to keep the methods of the referenced type */}}
+type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if isDateOrDateTimeGenerated .Format -}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 8a2c840..fc3eee2 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -54,10 +54,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     var msg {{namify .Name}}
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
@@ -109,7 +106,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
+            msg.Payload = {{template "schema-name" .Payload}}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
@@ -121,54 +118,29 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         switch {
 
             {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
+            {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
+            {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        h := {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        h := {{$value.Type}}(v)
-                        {{- end}}
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
+                {{- $isPointer := isFieldPointer $headers $key $value }}
+                {{- if eq $header.Type "object" }}
+                    err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return msg, err
+                    }
+                {{- else if isDateOrDateTimeGenerated $header.Format }}
+                    t, err := time.Parse(time.RFC3339, string(v))
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(t)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        msg.Headers.{{ namify $key}} = {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                        {{- end}}
-                    {{- end}}
+                    h := {{template "schema-name" $value}}(v)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
                 {{- end}}
             {{- end}}
         default:
@@ -187,10 +159,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     // TODO: implement checks on message
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
     {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
@@ -212,14 +181,14 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
@@ -229,16 +198,14 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{ if .Headers -}}
 
         {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
         {{- $headers := .Headers -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
+            {{- $header := $value.Follow}}
 
             // Adding {{ namify $key}} header
             {{- if $value.IsRequired }}
@@ -249,27 +216,27 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                      }
                 {{- end -}}
-                {{- if eq $value.Type "object" }}
+                {{- if eq $header.Type "object" }}
                     h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
                     if err != nil {
                         return extensions.BrokerMessage{}, err
                     }
                     headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                {{- else if isDateOrDateTimeGenerated $header.Format }}
+                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
                 {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
             {{- else}}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
+                    {{- if eq $header.Type "object" }}
                         h, err := json.Marshal(*msg.Headers.{{ namify $key}})
                         if err != nil {
                             return extensions.BrokerMessage{}, err
                         }
                         headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
+                    {{- else if isDateOrDateTimeGenerated $header.Format }}
+                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339))
                     {{- else }}
                         headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index eab7057..df928ab 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -32,7 +32,8 @@ type {{ namify .Name }} struct {
 {{- /* ----------------------------- Others ----------------------------- */ -}}
 {{- else -}}
 
-type {{ .Name }} {{template "schema-name" .}}
+{{- /* Use an alias for references, in order to keep the methods of the referenced type */}}
+type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if isDateOrDateTimeGenerated .Format -}}
-- 
2.43.0


From d5f027b30e8a871420b9a16add07543d2c3c0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 28/60] fix: keep the fractional seconds of the dates in
 headers and payloads

---
 pkg/codegen/generators/v2/templates/message.tmpl | 6 +++---
 pkg/codegen/generators/v3/templates/message.tmpl | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index b573221..0b8a7b6 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -179,7 +179,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
@@ -213,7 +213,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                     }
                     headers["{{$key}}"] = h
                 {{- else if isDateOrDateTimeGenerated $header.Format }}
-                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                 {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
@@ -226,7 +226,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         }
                         headers["{{$key}}"] = h
                     {{- else if isDateOrDateTimeGenerated $header.Format }}
-                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                     {{- else }}
                         headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index fc3eee2..4e9b695 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -188,7 +188,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- end}}
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
@@ -223,7 +223,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                     }
                     headers["{{$key}}"] = h
                 {{- else if isDateOrDateTimeGenerated $header.Format }}
-                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                 {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
@@ -236,7 +236,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         }
                         headers["{{$key}}"] = h
                     {{- else if isDateOrDateTimeGenerated $header.Format }}
-                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                     {{- else }}
                         headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
-- 
2.43.0


From 9e79d1ab49a21238d9d4b67e4550a561db6ddf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 29/60] fix: allow several required headers that are objects

---
 pkg/codegen/generators/v2/templates/message.tmpl | 10 ++++++----
 pkg/codegen/generators/v3/templates/message.tmpl | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 0b8a7b6..e9e7eaf 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -207,11 +207,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                     }
                 {{- end -}}
                 {{- if eq $header.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
+                    {
+                        h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                        if err != nil {
+                            return extensions.BrokerMessage{}, err
+                        }
+                        headers["{{$key}}"] = h
                     }
-                    headers["{{$key}}"] = h
                 {{- else if isDateOrDateTimeGenerated $header.Format }}
                     headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                 {{- else }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 4e9b695..ef8873f 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -217,11 +217,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                      }
                 {{- end -}}
                 {{- if eq $header.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
+                    {
+                        h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                        if err != nil {
+                            return extensions.BrokerMessage{}, err
+                        }
+                        headers["{{$key}}"] = h
                     }
-                    headers["{{$key}}"] = h
                 {{- else if isDateOrDateTimeGenerated $header.Format }}
                     headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
                 {{- else }}
-- 
2.43.0


From e2ce26e3cb8354ae20123a4a70808fbb6f01dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 30/60] fix: keep the own properties of composed schemas behind
 references (v2)

---
 pkg/asyncapi/schema.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index b691b5c..01366ca 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -29,7 +29,8 @@ type Validations[T any] struct {
 	ShouldOmitEmpty *bool `json:"-"`
 }
 
-// Merge merges the newV into the current Validations.
+// Merge merges the newV into the current Validations, except the composition
+// (AllOf, AnyOf, OneOf) that is kept by the referenced schema.
 //
 //nolint:cyclop,funlen // This function is a merge function and it is expected to have a high cyclomatic complexity.
 func (v *Validations[T]) Merge(newV Validations[T]) {
@@ -81,15 +82,6 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if newV.Const != nil {
 		v.Const = newV.Const
 	}
-	if len(newV.AllOf) > 0 {
-		v.AllOf = newV.AllOf
-	}
-	if len(newV.AnyOf) > 0 {
-		v.AnyOf = newV.AnyOf
-	}
-	if len(newV.OneOf) > 0 {
-		v.OneOf = newV.OneOf
-	}
 	if newV.IsRequired {
 		v.IsRequired = newV.IsRequired
 	}
-- 
2.43.0


From 88000c9a625dd6a8e2ec34554bc7933680ef6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 31/60] fix: require the merged properties that any of the
 schemas requires

---
 pkg/asyncapi/v2/schema.go | 8 +++++++-
 pkg/asyncapi/v3/schema.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 9da6dc1..50aebd4 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -354,6 +354,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
 	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	for _, name := range s.Required {
+		if p, exists := s.Properties[name]; exists {
+			p.IsRequired = true
+		}
+	}
 
 	return nil
 }
@@ -495,7 +500,8 @@ func (s *Schema) shared() *Schema {
 		array.Items = s.Items.shared()
 		return &array
 	default:
-		return s
+		other := *s
+		return &other
 	}
 }
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 8418589..ecc2bb3 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -352,6 +352,11 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
 	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	for _, name := range s.Required {
+		if p, exists := s.Properties[name]; exists {
+			p.IsRequired = true
+		}
+	}
 
 	return nil
 }
@@ -493,7 +498,8 @@ func (s *Schema) shared() *Schema {
 		array.Items = s.Items.shared()
 		return &array
 	default:
-		return s
+		other := *s
+		return &other
 	}
 }
 
-- 
2.43.0


From 4ccc08a87f6dccf5b5d8404f9a70867a54d3519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 32/60] fix: do not share the schemas of the traits between
 messages

---
 pkg/asyncapi/v3/message.go | 64 +++++++++++++++++++++-----------------
 pkg/asyncapi/v3/schema.go  | 43 +++++++++++++++++++++++++
 2 files changed, 78 insertions(+), 29 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 8a97987..8d76146 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -557,43 +557,49 @@ func (msg *Message) ApplyTrait(mt *MessageTrait, spec Specification) error {
 }
 
 func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
-	// Check if headers are nil
-	if headers == nil {
-		return nil
-	}
-
-	// Check if message headers are nil, then create them
-	if msg.Headers == nil {
-		newHeaders := utils.ToValue(headers.Follow())
-		msg.Headers = &newHeaders
-		if err := newHeaders.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
-			return err
-		}
-		return newHeaders.setDependencies(spec)
-	}
-
-	// Merge headers
-	return msg.Headers.MergeWith(spec, *headers)
+	merged, err := msg.mergeTraitSchema(spec, msg.Headers, headers, "Headers")
+	msg.Headers = merged
+	return err
 }
 
 func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
-	// Check if payload is nil
-	if payload == nil {
-		return nil
+	merged, err := msg.mergeTraitSchema(spec, msg.Payload, payload, "Payload")
+	msg.Payload = merged
+	return err
+}
+
+// mergeTraitSchema merges the schema of a trait in the one of the message, and
+// returns the result. The schema of the trait is copied, as other messages can
+// have the same trait.
+func (msg *Message) mergeTraitSchema(spec Specification, own, trait *Schema, name string) (*Schema, error) {
+	// Check if there is something to merge
+	if trait == nil {
+		return own, nil
 	}
 
-	// Check if message payload is nil, then create them
-	if msg.Payload == nil {
-		newPayload := utils.ToValue(payload.Follow())
-		msg.Payload = &newPayload
-		if err := newPayload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
-			return err
+	// Get a copy of the schema of the trait
+	trait, err := msg.ownCopy(spec, trait, name)
+	if err != nil || own == nil {
+		return trait, err
+	}
+
+	// Do not modify the schema of the message if it is defined elsewhere
+	if own.ReferenceTo != nil {
+		if own, err = msg.ownCopy(spec, own, name); err != nil {
+			return nil, err
 		}
-		return newPayload.setDependencies(spec)
 	}
 
-	// Merge payload
-	return msg.Payload.MergeWith(spec, *payload)
+	return own, own.MergeWith(spec, *trait)
+}
+
+// ownCopy returns a copy of the schema, that belongs to the message.
+func (msg *Message) ownCopy(spec Specification, schema *Schema, name string) (*Schema, error) {
+	schema = schema.Follow().clone()
+	if err := schema.generateMetadata(msg.Name, name, nil, false); err != nil {
+		return nil, err
+	}
+	return schema, schema.setDependencies(spec)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index ecc2bb3..1927097 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"slices"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -503,6 +505,47 @@ func (s *Schema) shared() *Schema {
 	}
 }
 
+// clone returns a copy of the schema and of its children (but not of the schemas
+// they reference), whose metadata and dependencies have to be set.
+func (s *Schema) clone() *Schema {
+	if s == nil {
+		return nil
+	}
+
+	c := *s
+	c.dependenciesSet = false
+	c.Required = slices.Clone(s.Required)
+
+	c.Properties = cloneMap(s.Properties)
+	c.PatternProperties = cloneMap(s.PatternProperties)
+	c.AdditionalProperties = s.AdditionalProperties.clone()
+	c.AdditionalItems = cloneSlice(s.AdditionalItems)
+	c.Items = s.Items.clone()
+	c.Contains = cloneSlice(s.Contains)
+	c.AllOf = cloneSlice(s.AllOf)
+	c.AnyOf = cloneSlice(s.AnyOf)
+	c.OneOf = cloneSlice(s.OneOf)
+	c.Not = s.Not.clone()
+
+	return &c
+}
+
+func cloneMap(schemas map[string]*Schema) map[string]*Schema {
+	c := make(map[string]*Schema, len(schemas))
+	for k, v := range schemas {
+		c[k] = v.clone()
+	}
+	return c
+}
+
+func cloneSlice(schemas []*Schema) []*Schema {
+	c := make([]*Schema, 0, len(schemas))
+	for _, v := range schemas {
+		c = append(c, v.clone())
+	}
+	return c
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-- 
2.43.0


From f398913490823c65f9b5f57b91ef4d4c924fc19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 33/60] fix: follow the references to operations, replies,
 their addresses and correlation IDs (v3)

---
 pkg/asyncapi/v3/channel.go                 | 16 ++++++--
 pkg/asyncapi/v3/correlation_id.go          | 29 ++++++++-----
 pkg/asyncapi/v3/message.go                 |  5 +++
 pkg/asyncapi/v3/message_trait.go           |  5 +++
 pkg/asyncapi/v3/operation.go               | 37 ++++++++++++-----
 pkg/asyncapi/v3/operation_reply.go         | 47 +++++++++++++++++-----
 pkg/asyncapi/v3/operation_reply_address.go | 39 ++++++++++++++----
 pkg/asyncapi/v3/specification.go           | 24 +++++++++++
 8 files changed, 158 insertions(+), 44 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index d8172ef..5da3130 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -39,6 +39,10 @@ type Channel struct {
 
 	Name        string   `json:"-"`
 	ReferenceTo *Channel `json:"-"`
+
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a channel can be reached from its parent and from the references to it.
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the Channel.
@@ -83,10 +87,11 @@ func (ch *Channel) generateMetadata(parentName, name string) error {
 //
 //nolint:cyclop
 func (ch *Channel) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if ch == nil {
+	// Prevent modification if nil or already done
+	if ch == nil || ch.dependenciesSet {
 		return nil
 	}
+	ch.dependenciesSet = true
 
 	// Set reference
 	if err := ch.setReference(spec); err != nil {
@@ -142,7 +147,12 @@ func (ch *Channel) setReference(spec Specification) error {
 	}
 	ch.ReferenceTo = refTo
 
-	return checkReferences(ch.Reference, ch, func(r *Channel) *Channel { return r.ReferenceTo })
+	if err := checkReferences(ch.Reference, ch, func(r *Channel) *Channel { return r.ReferenceTo }); err != nil {
+		return err
+	}
+
+	// Be sure that the referenced channel is complete before using it
+	return refTo.setDependencies(spec)
 }
 
 // Follow returns referenced channel if specified or the actual channel.
diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 720d21e..bbda909 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -12,8 +12,8 @@ type CorrelationID struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name        string   `json:"-"`
-	ReferenceTo *Channel `json:"-"`
+	Name        string         `json:"-"`
+	ReferenceTo *CorrelationID `json:"-"`
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -29,19 +29,26 @@ func (c *CorrelationID) generateMetadata(parentName, name string) {
 
 // setDependencies sets dependencies between the different elements of the CorrelationID.
 func (c *CorrelationID) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if c == nil {
+	// Prevent modification if nil, without reference or already done
+	if c == nil || c.Reference == "" || c.ReferenceTo != nil {
 		return nil
 	}
 
-	// Add pointer to reference if there is one
-	if c.Reference != "" {
-		refTo, err := spec.ReferenceChannel(c.Reference)
-		if err != nil {
-			return err
-		}
-		c.ReferenceTo = refTo
+	// Add pointer to reference
+	refTo, err := spec.ReferenceCorrelationID(c.Reference)
+	if err != nil {
+		return err
+	}
+	c.ReferenceTo = refTo
+	if err := checkReferences(c.Reference, c, func(r *CorrelationID) *CorrelationID { return r.ReferenceTo }); err != nil {
+		return err
+	}
+
+	// Use the referenced location
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
 	}
+	c.Location = refTo.Location
 
 	return nil
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 8d76146..5738246 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -156,6 +156,11 @@ func (msg *Message) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Set traits dependencies
 	if err := msg.setTraitsDependencies(spec); err != nil {
 		return err
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 9465baf..00b73d4 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -96,6 +96,11 @@ func (mt *MessageTrait) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := mt.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Set tags dependencies
 	for _, t := range mt.Tags {
 		if err := t.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 4b91fb0..c45fb15 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -46,6 +46,10 @@ type Operation struct {
 	ReplyIs     *Operation `json:"-"`
 	ReplyOf     *Operation `json:"-"`
 	ReferenceTo *Operation `json:"-"`
+
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// an operation can be reached from its parent and from the references to it.
+	dependenciesSet bool
 }
 
 func (op *Operation) generateMetadata(parentName, name string) error {
@@ -85,14 +89,15 @@ func (op *Operation) generateMetadata(parentName, name string) error {
 //
 //nolint:cyclop
 func (op *Operation) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if op == nil {
+	// Prevent modification if nil or already done
+	if op == nil || op.dependenciesSet {
 		return nil
 	}
+	op.dependenciesSet = true
 
-	// Set reference
-	if err := op.setReference(spec); err != nil {
-		return err
+	// Use the referenced operation if there is one
+	if op.Reference != "" {
+		return op.setReference(spec)
 	}
 
 	// Set channel dependencies if there is one
@@ -141,18 +146,28 @@ func (op *Operation) setDependencies(spec Specification) error {
 }
 
 func (op *Operation) setReference(spec Specification) error {
-	if op.Reference == "" {
-		return nil
-	}
-
-	// Add pointer to reference if there is one
+	// Add pointer to reference
 	refTo, err := spec.ReferenceOperation(op.Reference)
 	if err != nil {
 		return err
 	}
 	op.ReferenceTo = refTo
+	if err := checkReferences(op.Reference, op, func(r *Operation) *Operation { return r.ReferenceTo }); err != nil {
+		return err
+	}
+
+	// Be sure that the referenced operation is complete before using it
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
 
-	return checkReferences(op.Reference, op, func(r *Operation) *Operation { return r.ReferenceTo })
+	// Use it under the name of this operation
+	name := op.Name
+	*op = *refTo
+	op.Name = name
+	op.generateReply()
+
+	return nil
 }
 
 func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 34cee6b..88beb6b 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -15,6 +15,10 @@ type OperationReply struct {
 
 	Name        string          `json:"-"`
 	ReferenceTo *OperationReply `json:"-"`
+
+	// dependenciesSet indicates that the dependencies have already been set, as
+	// a reply can be reached from its parent and from the references to it.
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the OperationReply.
@@ -35,21 +39,15 @@ func (or *OperationReply) generateMetadata(parentName, name string) error {
 
 // setDependencies sets dependencies between the different elements of the OperationReply.
 func (or *OperationReply) setDependencies(op *Operation, spec Specification) error {
-	// Prevent modification if nil
-	if or == nil {
+	// Prevent modification if nil or already done
+	if or == nil || or.dependenciesSet {
 		return nil
 	}
+	or.dependenciesSet = true
 
-	// Add pointer to reference if there is one
+	// Use the referenced reply if there is one
 	if or.Reference != "" {
-		refTo, err := spec.ReferenceOperationReply(or.Reference)
-		if err != nil {
-			return err
-		}
-		or.ReferenceTo = refTo
-		if err := checkReferences(or.Reference, or, func(r *OperationReply) *OperationReply { return r.ReferenceTo }); err != nil {
-			return err
-		}
+		return or.setReference(op, spec)
 	}
 
 	// Set channel dependencies if there is one
@@ -72,6 +70,33 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 	return nil
 }
 
+func (or *OperationReply) setReference(op *Operation, spec Specification) error {
+	// Add pointer to reference
+	refTo, err := spec.ReferenceOperationReply(or.Reference)
+	if err != nil {
+		return err
+	}
+	or.ReferenceTo = refTo
+	if err := checkReferences(or.Reference, or, func(r *OperationReply) *OperationReply { return r.ReferenceTo }); err != nil {
+		return err
+	}
+
+	// Be sure that the referenced reply is complete before using it
+	if err := refTo.setDependencies(&Operation{}, spec); err != nil {
+		return err
+	}
+	or.Channel = refTo.Channel
+	or.Messages = refTo.Messages
+
+	// Keep its own address, as it depends on the operation
+	if refTo.Address != nil {
+		address := *refTo.Address
+		or.Address = &address
+	}
+
+	return or.Address.setDependencies(op, spec)
+}
+
 // Follow returns referenced operation if specified or the actual operation.
 func (or *OperationReply) Follow() *OperationReply {
 	if or.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 9152f4b..6c3fa21 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -39,13 +39,9 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 		return nil
 	}
 
-	// Add pointer to reference if there is one
-	if ora.Reference != "" {
-		refTo, err := spec.ReferenceOperationReplyAddress(ora.Reference)
-		if err != nil {
-			return err
-		}
-		ora.ReferenceTo = refTo
+	// Use the reference if there is one
+	if err := ora.setReference(spec); err != nil {
+		return err
 	}
 
 	// Get location to schema
@@ -58,8 +54,35 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 	return nil
 }
 
+func (ora *OperationReplyAddress) setReference(spec Specification) error {
+	// Check that there is a reference, that is not already set
+	if ora.Reference == "" || ora.ReferenceTo != nil {
+		return nil
+	}
+
+	// Add pointer to reference
+	refTo, err := spec.ReferenceOperationReplyAddress(ora.Reference)
+	if err != nil {
+		return err
+	}
+	ora.ReferenceTo = refTo
+	if err := checkReferences(ora.Reference, ora,
+		func(r *OperationReplyAddress) *OperationReplyAddress { return r.ReferenceTo }); err != nil {
+		return err
+	}
+
+	// Use the referenced location
+	if err := refTo.setReference(spec); err != nil {
+		return err
+	}
+	ora.Location = refTo.Location
+
+	return nil
+}
+
 func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error) {
-	if ora.Location == "" {
+	// There is no message if the address is not the one of an actual operation
+	if ora.Location == "" || op.Channel == nil {
 		return false, nil
 	}
 
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 88075f3..9374a25 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -242,6 +242,30 @@ func (s Specification) ReferenceChannelBindings(ref string) (*ChannelBindings, e
 	return bindings, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceExternalDocumentation returns the ExternalDocumentation struct corresponding to the given reference.
 func (s Specification) ReferenceExternalDocumentation(ref string) (*ExternalDocumentation, error) {
 	// Get object pointed by reference
-- 
2.43.0


From a795c0b8ba1b9e00903ea0f0fe893b38147ff6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 34/60] fix: define the types of the dependencies and of the
 channels from the components

---
 pkg/asyncapi/v2/specification.go              |  7 ++
 pkg/asyncapi/v3/specification.go              |  7 ++
 .../generators/v2/templates/types.tmpl        |  4 +-
 pkg/codegen/generators/v2/types.go            | 58 ++++++++++++++++
 .../generators/v3/templates/types.tmpl        |  6 +-
 pkg/codegen/generators/v3/types.go            | 68 +++++++++++++++++++
 6 files changed, 145 insertions(+), 5 deletions(-)

diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 0882ec1..961648b 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -64,6 +65,12 @@ func (s *Specification) AddDependency(path string, spec asyncapi.Specification)
 	return nil
 }
 
+// Dependencies returns the specifications on which the Specification depends,
+// ordered by path.
+func (s Specification) Dependencies() []*Specification {
+	return utils.MapToList(s.dependencies)
+}
+
 // Process processes the Specification to make it ready for code generation.
 func (s *Specification) Process() error {
 	if err := s.generateMetadata(); err != nil {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 9374a25..ff119b5 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -78,6 +79,12 @@ func (s *Specification) AddDependency(path string, spec asyncapi.Specification)
 	return nil
 }
 
+// Dependencies returns the specifications on which the Specification depends,
+// ordered by path.
+func (s Specification) Dependencies() []*Specification {
+	return utils.MapToList(s.dependencies)
+}
+
 // generateMetadata generate metadata for the Specification and its children.
 //
 //nolint:cyclop // Not necessary to reduce statements
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index c4b4ea4..4b4d5ea 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -79,11 +79,11 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 {{end -}}
 {{- end}}
 
-{{range $key, $value := .Components.Messages}}
+{{range $value := .MessagesToDefine}}
 {{template "message" $value}}
 {{end}}
 
-{{range $key, $value := .Components.Schemas}}
+{{range $value := .SchemasToDefine}}
 {{template "schema-definition" $value}}
 {{- end}}
 
diff --git a/pkg/codegen/generators/v2/types.go b/pkg/codegen/generators/v2/types.go
index ea9d07c..f601ac3 100644
--- a/pkg/codegen/generators/v2/types.go
+++ b/pkg/codegen/generators/v2/types.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // TypesGenerator is a code generator for types that will generate all schemas
@@ -35,3 +36,60 @@ func (tg TypesGenerator) Generate() (string, error) {
 
 	return buf.String(), nil
 }
+
+// MessagesToDefine returns the messages of the components, from the specification
+// and the ones that it depends on.
+func (tg TypesGenerator) MessagesToDefine() []*asyncapi.Message {
+	return toDefine(tg.Specification, func(spec *asyncapi.Specification) [][]*asyncapi.Message {
+		return [][]*asyncapi.Message{utils.MapToList(spec.Components.Messages)}
+	}, func(msg *asyncapi.Message) (string, bool) {
+		return msg.Name, msg.ReferenceTo == nil
+	})
+}
+
+// SchemasToDefine returns the schemas of the components, from the specification and
+// the ones that it depends on.
+func (tg TypesGenerator) SchemasToDefine() []*asyncapi.Schema {
+	return toDefine(tg.Specification, func(spec *asyncapi.Specification) [][]*asyncapi.Schema {
+		return [][]*asyncapi.Schema{utils.MapToList(spec.Components.Schemas)}
+	}, func(s *asyncapi.Schema) (string, bool) {
+		return s.Name, s.ReferenceTo == nil || s.Follow().Name != s.Name
+	})
+}
+
+// toDefine returns the elements that should be defined in the generated code. An
+// element that has the same name than an element from another group, that is already
+// defined, is ignored.
+func toDefine[T any](
+	spec asyncapi.Specification,
+	groups func(spec *asyncapi.Specification) [][]*T,
+	describe func(element *T) (name string, isDefinition bool),
+) []*T {
+	// Get the groups, from the specification first
+	all := groups(&spec)
+	for _, dependency := range spec.Dependencies() {
+		all = append(all, groups(dependency)...)
+	}
+
+	list := make([]*T, 0)
+	defined := make(map[string]bool)
+	for _, group := range all {
+		names := make([]string, 0)
+		for _, e := range group {
+			if e == nil {
+				continue
+			}
+
+			if name, isDefinition := describe(e); isDefinition && !defined[name] {
+				names = append(names, name)
+				list = append(list, e)
+			}
+		}
+
+		for _, name := range names {
+			defined[name] = true
+		}
+	}
+
+	return list
+}
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index 6f1b531..51fc820 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -56,7 +56,7 @@ func (e *Error) Error() string {
     return fmt.Sprintf("channel %q: err %v", e.Channel, e.Err)
 }
 
-{{range $key, $value := .Channels -}}
+{{range $value := .ChannelsToDefine -}}
 
 {{- if $value.Parameters -}}
 // {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
@@ -76,11 +76,11 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 
 {{/* NOTE: No need to generate messages from operation as they are only references */}}
 
-{{- range $key, $value := .Components.Messages}}
+{{- range $value := .MessagesToDefine}}
 {{template "message" $value}}
 {{end -}}
 
-{{range $key, $value := .Components.Schemas}}
+{{range $value := .SchemasToDefine}}
 {{template "schema-definition" $value}}
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/types.go b/pkg/codegen/generators/v3/types.go
index c9e8d39..f9e8a4e 100644
--- a/pkg/codegen/generators/v3/types.go
+++ b/pkg/codegen/generators/v3/types.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // TypesGenerator is a code generator for types that will generate all schemas
@@ -34,3 +35,70 @@ func (tg TypesGenerator) Generate() (string, error) {
 
 	return buf.String(), nil
 }
+
+// ChannelsToDefine returns the channels that define messages and parameters, from the
+// specification and the ones that it depends on.
+func (tg TypesGenerator) ChannelsToDefine() []*asyncapi.Channel {
+	return toDefine(tg.Specification, func(spec *asyncapi.Specification) [][]*asyncapi.Channel {
+		return [][]*asyncapi.Channel{utils.MapToList(spec.Channels), utils.MapToList(spec.Components.Channels)}
+	}, func(ch *asyncapi.Channel) (string, bool) {
+		return ch.Name, ch.ReferenceTo == nil
+	})
+}
+
+// MessagesToDefine returns the messages of the components, from the specification
+// and the ones that it depends on.
+func (tg TypesGenerator) MessagesToDefine() []*asyncapi.Message {
+	return toDefine(tg.Specification, func(spec *asyncapi.Specification) [][]*asyncapi.Message {
+		return [][]*asyncapi.Message{utils.MapToList(spec.Components.Messages)}
+	}, func(msg *asyncapi.Message) (string, bool) {
+		return msg.Name, msg.ReferenceTo == nil
+	})
+}
+
+// SchemasToDefine returns the schemas of the components, from the specification and
+// the ones that it depends on.
+func (tg TypesGenerator) SchemasToDefine() []*asyncapi.Schema {
+	return toDefine(tg.Specification, func(spec *asyncapi.Specification) [][]*asyncapi.Schema {
+		return [][]*asyncapi.Schema{utils.MapToList(spec.Components.Schemas)}
+	}, func(s *asyncapi.Schema) (string, bool) {
+		return s.Name, s.ReferenceTo == nil || s.Follow().Name != s.Name
+	})
+}
+
+// toDefine returns the elements that should be defined in the generated code. An
+// element that has the same name than an element from another group, that is already
+// defined, is ignored.
+func toDefine[T any](
+	spec asyncapi.Specification,
+	groups func(spec *asyncapi.Specification) [][]*T,
+	describe func(element *T) (name string, isDefinition bool),
+) []*T {
+	// Get the groups, from the specification first
+	all := groups(&spec)
+	for _, dependency := range spec.Dependencies() {
+		all = append(all, groups(dependency)...)
+	}
+
+	list := make([]*T, 0)
+	defined := make(map[string]bool)
+	for _, group := range all {
+		names := make([]string, 0)
+		for _, e := range group {
+			if e == nil {
+				continue
+			}
+
+			if name, isDefinition := describe(e); isDefinition && !defined[name] {
+				names = append(names, name)
+				list = append(list, e)
+			}
+		}
+
+		for _, name := range names {
+			defined[name] = true
+		}
+	}
+
+	return list
+}
-- 
2.43.0


From 9f8e37e7191c2ebe3cc58b55d09e9b3d408b95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 35/60] fix: keep the references resolved in another
 specification when merging traits

---
 pkg/asyncapi/v3/schema.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 1927097..a08d6c2 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -295,7 +295,9 @@ func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 }
 
 func (s *Schema) setReference(spec Specification) error {
-	if s.Reference == "" {
+	// Do not follow again the reference of a copied schema, as it can come from
+	// another specification
+	if s.Reference == "" || s.ReferenceTo != nil {
 		return nil
 	}
 
-- 
2.43.0


From 5fe6aa106ac1e3f24f2a242fbc2bdf94bb432ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 36/60] fix: convert the correlation IDs and reply addresses
 that have a named type, do not define messages that are references (v2)

---
 pkg/codegen/generators/v2/templates/message.tmpl   | 14 +++++++++++++-
 .../generators/v3/templates/controller.tmpl        |  4 ++--
 pkg/codegen/generators/v3/templates/message.tmpl   |  9 ++++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index e9e7eaf..e9847a0 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -1,5 +1,8 @@
 {{define "message" -}}
 
+{{- /* References use the definition of the referenced message */}}
+{{- if not $.Reference }}
+
 {{- if and .Headers (not .Headers.ReferenceTo) }}
 {{template "schema-definition" .Headers}}
 {{- end}}
@@ -260,14 +263,21 @@ func (msg {{namify .Name}}) CorrelationID() string {
     {{- end}}
 
     {{with index $steps $last -}}
+    {{- if .Schema.Reference}}
+    return string({{if .IsPointer}}*{{end}}msg.{{.Path}})
+    {{- else}}
     return {{if .IsPointer}}*{{end}}msg.{{.Path}}
     {{- end}}
+    {{- end}}
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
     {{- range $i, $step := $steps}}
-    {{- if eq $i $last}}
+    {{- if and (eq $i $last) $step.Schema.Reference}}
+    v := {{template "schema-name" $step.Schema}}(id)
+    msg.{{$step.Path}} = {{if $step.IsPointer}}&{{end}}v
+    {{- else if eq $i $last}}
     msg.{{$step.Path}} = {{if $step.IsPointer}}&{{end}}id
     {{- else if $step.IsPointer}}
     {{- /* Work on a copy, as copies of the message share the same pointers */}}
@@ -289,4 +299,6 @@ func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
+
+{{- end }}
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 4d2df33..09e1ea0 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -281,7 +281,7 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
             {{- end}}
         {{- end}}
         {{- with index $steps (len (slice $steps 1)) }}
-            chanAddr := {{if .IsPointer}}*{{end}}recvMsg.{{.Path}}
+            chanAddr := {{if .Schema.Reference}}string({{end}}{{if .IsPointer}}*{{end}}recvMsg.{{.Path}}{{if .Schema.Reference}}){{end}}
         {{- end }}
         if chanAddr == "" {
             return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
@@ -415,7 +415,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
             {{- end}}
         {{- end}}
         {{- with index $steps (len (slice $steps 1)) }}
-            addr := {{if .IsPointer}}*{{end}}msg.{{.Path}}
+            addr := {{if .Schema.Reference}}string({{end}}{{if .IsPointer}}*{{end}}msg.{{.Path}}{{if .Schema.Reference}}){{end}}
         {{- end }}
         if addr == "" {
             return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index ef8873f..d711d6a 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -270,14 +270,21 @@ func (msg {{namify .Name}}) CorrelationID() string {
     {{- end}}
 
     {{with index $steps $last -}}
+    {{- if .Schema.Reference}}
+    return string({{if .IsPointer}}*{{end}}msg.{{.Path}})
+    {{- else}}
     return {{if .IsPointer}}*{{end}}msg.{{.Path}}
     {{- end}}
+    {{- end}}
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
     {{- range $i, $step := $steps}}
-    {{- if eq $i $last}}
+    {{- if and (eq $i $last) $step.Schema.Reference}}
+    v := {{template "schema-name" $step.Schema}}(id)
+    msg.{{$step.Path}} = {{if $step.IsPointer}}&{{end}}v
+    {{- else if eq $i $last}}
     msg.{{$step.Path}} = {{if $step.IsPointer}}&{{end}}id
     {{- else if $step.IsPointer}}
     {{- /* Work on a copy, as copies of the message share the same pointers */}}
-- 
2.43.0


From 887cb78b90e630d334c37fc774cb3c5720f321d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 37/60] fix: refuse the references that turn in circles, or
 that go below components, and null components

---
 pkg/asyncapi/v2/channel.go                | 10 ++++++++++
 pkg/asyncapi/v2/message.go                |  9 +++++++--
 pkg/asyncapi/v2/parameter.go              | 10 ++++++++++
 pkg/asyncapi/v2/schema.go                 |  9 +++++++--
 pkg/asyncapi/v2/specification.go          |  3 +++
 pkg/asyncapi/v3/channel_bindings.go       |  4 ++++
 pkg/asyncapi/v3/external_documentation.go |  4 ++++
 pkg/asyncapi/v3/message_bindings.go       |  4 ++++
 pkg/asyncapi/v3/message_example.go        |  4 ++++
 pkg/asyncapi/v3/operation_bindings.go     |  4 ++++
 pkg/asyncapi/v3/parameter.go              |  3 +++
 pkg/asyncapi/v3/security_scheme.go        |  4 ++++
 pkg/asyncapi/v3/server.go                 |  2 +-
 pkg/asyncapi/v3/server_bindings.go        |  4 ++++
 pkg/asyncapi/v3/server_variable.go        |  4 ++++
 pkg/asyncapi/v3/specification.go          |  3 +++
 pkg/asyncapi/v3/tag.go                    |  3 +++
 17 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 580d016..34dadb8 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -21,6 +21,11 @@ type Channel struct {
 
 // generateMetadata generate metadata for the channel and its children.
 func (c *Channel) generateMetadata(path string) error {
+	// Prevent modification if nil
+	if c == nil {
+		return nil
+	}
+
 	// Set channel name and path
 	c.Name = template.Namify(path)
 	c.Path = path
@@ -58,6 +63,11 @@ func (c *Channel) generateMetadata(path string) error {
 
 // setDependencies set dependencies for the channel and its children from specification.
 func (c *Channel) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if c == nil {
+		return nil
+	}
+
 	// Set subscribe operation dependencies if present
 	if c.Subscribe != nil {
 		if err := c.Subscribe.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index b349545..07bcff2 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -61,6 +61,11 @@ type Message struct {
 
 // generateMetadata generates the metadata for the Message and its children.
 func (msg *Message) generateMetadata(name string) error {
+	// Prevent modification if nil
+	if msg == nil {
+		return nil
+	}
+
 	msg.Name = template.Namify(name)
 
 	// Generate Payload metadata
@@ -81,8 +86,8 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
-	// Do nothing if already done
-	if msg.dependenciesSet {
+	// Do nothing if nil or already done
+	if msg == nil || msg.dependenciesSet {
 		return nil
 	}
 	msg.dependenciesSet = true
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 3e698d8..9f050cf 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -21,6 +21,11 @@ type Parameter struct {
 
 // generateMetadata generate metadata for the parameter.
 func (p *Parameter) generateMetadata(name string) error {
+	// Prevent modification if nil
+	if p == nil {
+		return nil
+	}
+
 	// Add parameter name
 	p.Name = template.Namify(name)
 
@@ -34,6 +39,11 @@ func (p *Parameter) generateMetadata(name string) error {
 
 // setDependencies set dependencies for the parameter from specification.
 func (p *Parameter) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if p == nil {
+		return nil
+	}
+
 	// Add pointer to reference if there is one
 	if p.Reference != "" {
 		refTo, err := spec.ReferenceParameter(p.Reference)
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 50aebd4..a1fd89e 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -66,6 +66,11 @@ func NewSchema() Schema {
 
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
+	// Prevent modification if nil
+	if s == nil {
+		return nil
+	}
+
 	s.Name = template.Namify(name)
 
 	// Generate Properties metadata
@@ -120,8 +125,8 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
-	// Do nothing if already done
-	if s.dependenciesSet {
+	// Do nothing if nil or already done
+	if s == nil || s.dependenciesSet {
 		return nil
 	}
 	s.dependenciesSet = true
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 961648b..1052c5c 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -247,6 +247,9 @@ func (s Specification) reference(ref string) (any, error) {
 		if len(refPath) < 3 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
 		}
+		if len(refPath) > 3 && refPath[1] != "schemas" && refPath[1] != "messages" {
+			return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "messages":
 			msg := usedSpec.Components.Messages[refPath[2]]
diff --git a/pkg/asyncapi/v3/channel_bindings.go b/pkg/asyncapi/v3/channel_bindings.go
index 44b770a..1a9d926 100644
--- a/pkg/asyncapi/v3/channel_bindings.go
+++ b/pkg/asyncapi/v3/channel_bindings.go
@@ -56,6 +56,10 @@ func (chb *ChannelBindings) setDependencies(spec Specification) error {
 			return err
 		}
 		chb.ReferenceTo = refTo
+		if err := checkReferences(chb.Reference, chb,
+			func(r *ChannelBindings) *ChannelBindings { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/external_documentation.go b/pkg/asyncapi/v3/external_documentation.go
index 2b572ce..0627a03 100644
--- a/pkg/asyncapi/v3/external_documentation.go
+++ b/pkg/asyncapi/v3/external_documentation.go
@@ -46,6 +46,10 @@ func (doc *ExternalDocumentation) setDependencies(spec Specification) error {
 			return err
 		}
 		doc.ReferenceTo = refTo
+		if err := checkReferences(doc.Reference, doc,
+			func(r *ExternalDocumentation) *ExternalDocumentation { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/message_bindings.go b/pkg/asyncapi/v3/message_bindings.go
index 8626e99..f20148d 100644
--- a/pkg/asyncapi/v3/message_bindings.go
+++ b/pkg/asyncapi/v3/message_bindings.go
@@ -58,6 +58,10 @@ func (mb *MessageBindings) setDependencies(spec Specification) error {
 			return err
 		}
 		mb.ReferenceTo = refTo
+		if err := checkReferences(mb.Reference, mb,
+			func(r *MessageBindings) *MessageBindings { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/message_example.go b/pkg/asyncapi/v3/message_example.go
index b6b6458..6e1754a 100644
--- a/pkg/asyncapi/v3/message_example.go
+++ b/pkg/asyncapi/v3/message_example.go
@@ -42,6 +42,10 @@ func (me *MessageExample) setDependencies(spec Specification) error {
 			return err
 		}
 		me.ReferenceTo = refTo
+		if err := checkReferences(me.Reference, me,
+			func(r *MessageExample) *MessageExample { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/operation_bindings.go b/pkg/asyncapi/v3/operation_bindings.go
index 7a2157d..4287310 100644
--- a/pkg/asyncapi/v3/operation_bindings.go
+++ b/pkg/asyncapi/v3/operation_bindings.go
@@ -58,6 +58,10 @@ func (ob *OperationBindings) setDependencies(spec Specification) error {
 			return err
 		}
 		ob.ReferenceTo = refTo
+		if err := checkReferences(ob.Reference, ob,
+			func(r *OperationBindings) *OperationBindings { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/parameter.go b/pkg/asyncapi/v3/parameter.go
index 30f0aef..113f5d5 100644
--- a/pkg/asyncapi/v3/parameter.go
+++ b/pkg/asyncapi/v3/parameter.go
@@ -41,6 +41,9 @@ func (p *Parameter) setDependencies(spec Specification) error {
 			return err
 		}
 		p.ReferenceTo = refTo
+		if err := checkReferences(p.Reference, p, func(r *Parameter) *Parameter { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/security_scheme.go b/pkg/asyncapi/v3/security_scheme.go
index 3638c60..e3af987 100644
--- a/pkg/asyncapi/v3/security_scheme.go
+++ b/pkg/asyncapi/v3/security_scheme.go
@@ -74,6 +74,10 @@ func (s *SecurityScheme) setDependencies(spec Specification) error {
 			return err
 		}
 		s.ReferenceTo = refTo
+		if err := checkReferences(s.Reference, s,
+			func(r *SecurityScheme) *SecurityScheme { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/server.go b/pkg/asyncapi/v3/server.go
index c2f53b0..87e8c6c 100644
--- a/pkg/asyncapi/v3/server.go
+++ b/pkg/asyncapi/v3/server.go
@@ -115,5 +115,5 @@ func (srv *Server) setReference(spec Specification) error {
 	// Set reference
 	srv.ReferenceTo = refTo
 
-	return nil
+	return checkReferences(srv.Reference, srv, func(r *Server) *Server { return r.ReferenceTo })
 }
diff --git a/pkg/asyncapi/v3/server_bindings.go b/pkg/asyncapi/v3/server_bindings.go
index a8bff9b..bd89e4a 100644
--- a/pkg/asyncapi/v3/server_bindings.go
+++ b/pkg/asyncapi/v3/server_bindings.go
@@ -58,6 +58,10 @@ func (ob *ServerBindings) setDependencies(spec Specification) error {
 			return err
 		}
 		ob.ReferenceTo = refTo
+		if err := checkReferences(ob.Reference, ob,
+			func(r *ServerBindings) *ServerBindings { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/server_variable.go b/pkg/asyncapi/v3/server_variable.go
index 202fd5c..69cfb15 100644
--- a/pkg/asyncapi/v3/server_variable.go
+++ b/pkg/asyncapi/v3/server_variable.go
@@ -43,6 +43,10 @@ func (sv *ServerVariable) setDependencies(spec Specification) error {
 			return err
 		}
 		sv.ReferenceTo = refTo
+		if err := checkReferences(sv.Reference, sv,
+			func(r *ServerVariable) *ServerVariable { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index ff119b5..9add825 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -725,6 +725,9 @@ func (s Specification) reference(ref string) (any, error) {
 		if len(refPath) < 3 {
 			return nil, fmt.Errorf("%w: reference %q is incomplete", ErrInvalidReference, ref)
 		}
+		if len(refPath) > 3 && refPath[1] != "schemas" && refPath[1] != "messages" {
+			return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+		}
 		switch refPath[1] {
 		case "schemas":
 			schema := usedSpec.Components.Schemas[refPath[2]]
diff --git a/pkg/asyncapi/v3/tag.go b/pkg/asyncapi/v3/tag.go
index 199e144..068e0c1 100644
--- a/pkg/asyncapi/v3/tag.go
+++ b/pkg/asyncapi/v3/tag.go
@@ -49,6 +49,9 @@ func (t *Tag) setDependencies(spec Specification) error {
 			return err
 		}
 		t.ReferenceTo = refTo
+		if err := checkReferences(t.Reference, t, func(r *Tag) *Tag { return r.ReferenceTo }); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From a07699fc2f9ee4c719d5db36726a7e364c9a7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 38/60] fix: accept the references to servers, and the servers
 with security schemes

---
 pkg/asyncapi/v3/server.go        | 16 ++++++++++------
 pkg/asyncapi/v3/specification.go |  5 +++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v3/server.go b/pkg/asyncapi/v3/server.go
index 87e8c6c..73a5035 100644
--- a/pkg/asyncapi/v3/server.go
+++ b/pkg/asyncapi/v3/server.go
@@ -14,7 +14,7 @@ type Server struct {
 	Title           string                     `json:"title"`
 	Summary         string                     `json:"summary"`
 	Variables       map[string]*ServerVariable `json:"variables"`
-	Security        *SecurityScheme            `json:"security"`
+	Security        []*SecurityScheme          `json:"security"`
 	Tags            []*Tag                     `json:"tags"`
 	ExternalDocs    *ExternalDocumentation     `json:"externalDocs"`
 	Bindings        *ServerBindings            `json:"bindings"`
@@ -41,8 +41,10 @@ func (srv *Server) generateMetadata(parentName, name string) {
 		s.generateMetadata(srv.Name, n)
 	}
 
-	// Generate security metadata
-	srv.Security.generateMetadata(srv.Name, "", nil)
+	// Generate securities metadata
+	for i, s := range srv.Security {
+		s.generateMetadata(srv.Name, "", &i)
+	}
 
 	// Generate tags metadata
 	for i, t := range srv.Tags {
@@ -75,9 +77,11 @@ func (srv *Server) setDependencies(spec Specification) error {
 		}
 	}
 
-	// Set security dependencies
-	if err := srv.Security.setDependencies(spec); err != nil {
-		return err
+	// Set securities dependencies
+	for _, s := range srv.Security {
+		if err := s.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set tags dependencies
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 9add825..c8e24dd 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -772,6 +772,11 @@ func (s Specification) reference(ref string) (any, error) {
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
+	case "servers":
+		if len(refPath) != 2 {
+			return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+		}
+		return usedSpec.Servers[refPath[1]], nil
 	case "channels":
 		switch {
 		case len(refPath) == 2:
-- 
2.43.0


From f628cbe6930039a85ac11a93580f0d3850177123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 39/60] fix: generate the dates that have a named type

---
 pkg/codegen/generators/v2/templates/marshaling/time.tmpl | 9 +++++----
 pkg/codegen/generators/v3/templates/marshaling/time.tmpl | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..567bcc2 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,12 +1,13 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+{{- $type := "time.Time"}}{{if eq .Format "date"}}{{$type = "civil.Date"}}{{end -}}
+// MarshalJSON will override the marshal as this is not a normal '{{ $type }}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{ $type }}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{ $type }}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{ $type }}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..567bcc2 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,12 +1,13 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
+{{- $type := "time.Time"}}{{if eq .Format "date"}}{{$type = "civil.Date"}}{{end -}}
+// MarshalJSON will override the marshal as this is not a normal '{{ $type }}' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{ $type }}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{ $type }}' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{ $type }}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
-- 
2.43.0


From fda6532ffc0028e9e4b8ff0f87e281120a52c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 40/60] fix: generate the validation tags of null limits, great
 numbers, and special characters

---
 pkg/asyncapi/schema.go                        |  20 ++--
 pkg/codegen/generators/helpers.go             | 101 +++++++++++++-----
 .../v2/templates/schema_definition.tmpl       |   4 +-
 .../v3/templates/schema_definition.tmpl       |   4 +-
 4 files changed, 89 insertions(+), 40 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index 01366ca..50e5d06 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -5,11 +5,11 @@ package asyncapi
 type Validations[T any] struct {
 	Required         []string `json:"required"`
 	MultipleOf       []string `json:"multipleOf"`
-	Maximum          float64  `json:"maximum"`
-	ExclusiveMaximum float64  `json:"exclusiveMaximum"`
-	Minimum          float64  `json:"minimum"`
-	ExclusiveMinimum float64  `json:"exclusiveMinimum"`
-	MaxLength        uint     `json:"maxLength"`
+	Maximum          *float64 `json:"maximum"`
+	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
+	Minimum          *float64 `json:"minimum"`
+	ExclusiveMinimum *float64 `json:"exclusiveMinimum"`
+	MaxLength        *uint    `json:"maxLength"`
 	MinLength        uint     `json:"minLength"`
 	Pattern          string   `json:"pattern"`
 	MaxItems         uint     `json:"maxItems"`
@@ -40,19 +40,19 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.MultipleOf) > 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
-	if newV.Maximum != 0 {
+	if newV.Maximum != nil {
 		v.Maximum = newV.Maximum
 	}
-	if newV.ExclusiveMaximum != 0 {
+	if newV.ExclusiveMaximum != nil {
 		v.ExclusiveMaximum = newV.ExclusiveMaximum
 	}
-	if newV.Minimum != 0 {
+	if newV.Minimum != nil {
 		v.Minimum = newV.Minimum
 	}
-	if newV.ExclusiveMinimum != 0 {
+	if newV.ExclusiveMinimum != nil {
 		v.ExclusiveMinimum = newV.ExclusiveMinimum
 	}
-	if newV.MaxLength != 0 {
+	if newV.MaxLength != nil {
 		v.MaxLength = newV.MaxLength
 	}
 	if newV.MinLength != 0 {
diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 7617e01..15b050d 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,17 +2,46 @@ package generators
 
 import (
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
-func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
-	if value != 0 {
-		return append(directives, fmt.Sprintf("%s=%g", tagName, value))
+// appendLengthDirective adds a limit on the length.
+func appendLengthDirective(directives []string, tagName string, value uint) []string {
+	return append(directives, tagName+"="+strconv.FormatUint(uint64(value), 10))
+}
+
+// appendRangeDirective adds a limit on the value, if there is one. Limits of integers
+// are rounded to the integer that gives the same range (with the given function), and
+// are useless when they are out of the range of the type.
+func appendRangeDirective(
+	directives []string,
+	tagName string,
+	value *float64,
+	schemaType string,
+	round func(float64) float64,
+) []string {
+	if value == nil {
+		return directives
 	}
-	return directives
+
+	limit := *value
+	if schemaType == "integer" {
+		limit = round(limit)
+
+		// NOTE: the validator only accepts int64 for the limits of integers
+		isUpper := strings.HasPrefix(tagName, "l")
+		if (isUpper && limit >= math.MaxInt64) || (!isUpper && limit < math.MinInt64) {
+			return directives
+		}
+	}
+
+	// NOTE: the validator does not accept exponents for the limits of integers
+	return append(directives, tagName+"="+strconv.FormatFloat(limit, 'f', -1, 64))
 }
 
 // GenerateJSONTags returns the "json" tag for a given field in a struct, based on the asyncapi contract.
@@ -44,12 +73,16 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 		directives = append(directives, "required")
 	}
 
-	directives = appendDirectiveIfDefined(directives, "min", float64(schema.MinLength))
-	directives = appendDirectiveIfDefined(directives, "max", float64(schema.MaxLength))
-	directives = appendDirectiveIfDefined(directives, "gte", schema.Minimum)
-	directives = appendDirectiveIfDefined(directives, "lte", schema.Maximum)
-	directives = appendDirectiveIfDefined(directives, "gt", schema.ExclusiveMinimum)
-	directives = appendDirectiveIfDefined(directives, "lt", schema.ExclusiveMaximum)
+	if schema.MinLength != 0 {
+		directives = appendLengthDirective(directives, "min", schema.MinLength)
+	}
+	if schema.MaxLength != nil {
+		directives = appendLengthDirective(directives, "max", *schema.MaxLength)
+	}
+	directives = appendRangeDirective(directives, "gte", schema.Minimum, schemaType, math.Ceil)
+	directives = appendRangeDirective(directives, "lte", schema.Maximum, schemaType, math.Floor)
+	directives = appendRangeDirective(directives, "gt", schema.ExclusiveMinimum, schemaType, math.Floor)
+	directives = appendRangeDirective(directives, "lt", schema.ExclusiveMaximum, schemaType, math.Ceil)
 
 	if schema.UniqueItems {
 		directives = append(directives, "unique")
@@ -59,7 +92,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	if schema.Const != nil {
 		if cStr, ok := schema.Const.(string); ok {
 			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, fmt.Sprintf("eq=%s", cStr))
+			directives = append(directives, "eq="+escapeParam(cStr))
 		}
 	}
 
@@ -68,31 +101,47 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 			directives = append([]string{"omitempty"}, directives...)
 		}
 
-		return fmt.Sprintf(" validate:\"%s\"", strings.Join(directives, ","))
+		return " validate:" + quoteTag(strings.Join(directives, ","))
 	} else {
 		return ""
 	}
 }
 
-// singleQuote prepends and appends a single quote to the provided string.
-func singleQuote(s string) string {
-	return "'" + s + "'"
+// quoteTag quotes the content of a tag, that is itself written between backquotes.
+func quoteTag(s string) string {
+	return strings.ReplaceAll(strconv.Quote(s), "`", `\x60`)
+}
+
+// escapeParam replaces the characters that separate the directives by what the
+// validator expects in the parameters.
+func escapeParam(s string) string {
+	return strings.NewReplacer(",", "0x2C", "|", "0x7C").Replace(s)
 }
 
 func appendEnumDirectives[T any](schema asyncapi.Validations[T], directives []string) []string {
-	if len(schema.Enum) > 0 {
-		var enumsStr []string
-		for _, e := range schema.Enum {
-			if eStr, ok := e.(string); ok {
-				// single quotes are mandatory in order to handle values with spaces
-				enumsStr = append(enumsStr, singleQuote(eStr))
-			}
-		}
+	if len(schema.Enum) == 0 {
+		return directives
+	}
 
+	var oneOf, eq []string
+	var haveSingleQuotes bool
+	for _, e := range schema.Enum {
 		// Only generate enum if all elements are string, otherwise this is unsupported
-		if len(schema.Enum) == len(enumsStr) {
-			directives = append(directives, fmt.Sprintf("oneof=%s", strings.Join(enumsStr, " ")))
+		eStr, ok := e.(string)
+		if !ok {
+			return directives
 		}
+
+		haveSingleQuotes = haveSingleQuotes || strings.Contains(eStr, "'")
+		// single quotes are mandatory in order to handle values with spaces
+		oneOf = append(oneOf, "'"+escapeParam(eStr)+"'")
+		eq = append(eq, "eq="+escapeParam(eStr))
+	}
+
+	// NOTE: the validator does not accept values with single quotes in oneof
+	if haveSingleQuotes {
+		return append(directives, strings.Join(eq, "|"))
 	}
-	return directives
+
+	return append(directives, "oneof="+strings.Join(oneOf, " "))
 }
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index df928ab..162a34a 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
@@ -36,7 +36,7 @@ type {{ namify .Name }} struct {
 type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
-{{- if isDateOrDateTimeGenerated .Format -}}
+{{- if and (eq .Type "string") (isDateOrDateTimeGenerated .Format) (not .ExtGoType) -}}
     {{template "marshaling-time" .}}
 {{- end -}}
 
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index df928ab..162a34a 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
@@ -36,7 +36,7 @@ type {{ namify .Name }} struct {
 type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
-{{- if isDateOrDateTimeGenerated .Format -}}
+{{- if and (eq .Type "string") (isDateOrDateTimeGenerated .Format) (not .ExtGoType) -}}
     {{template "marshaling-time" .}}
 {{- end -}}
 
-- 
2.43.0


From b0584d23c87e824c426c02815f44912b6978119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 41/60] fix: keep the additional properties apart from the
 declared properties

---
 .../marshaling/additional_properties.tmpl     | 39 +++++++++++++------
 .../marshaling/additional_properties.tmpl     | 39 +++++++++++++------
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 9d28939..e0bc3e5 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -18,6 +18,16 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
 
 	// Add additional properties
 	for k, v := range t.AdditionalProperties {
+    	{{- if .Properties}}
+    	// The declared properties are already there
+    	switch k {
+    	    {{- range $key, $value := .Properties}}
+    	    case "{{convertKey $key}}":
+    	        continue
+    	    {{- end}}
+    	}
+    	{{- end}}
+
     	if needSeparator {
     	    b = append(b, ',')
     	}
@@ -48,6 +58,20 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
         return err
     }
 
+    // Separate the declared properties from the additional ones: the names should be
+    // exactly the same, whereas unmarshalling to a struct ignores the case.
+    properties := make(map[string]json.RawMessage, len(m))
+    {{- range $key, $value := .Properties}}
+    if v, exists := m["{{convertKey $key}}"]; exists {
+        properties["{{convertKey $key}}"] = v
+        delete(m, "{{convertKey $key}}")
+    }
+    {{- end}}
+    data, err := json.Marshal(properties)
+    if err != nil {
+        return err
+    }
+
     // Unmarshal into the alias then copy the alias content into the original
     // object. This is done to avoid JSON unmarshal recursion.
     var a alias
@@ -59,18 +83,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     // Get all fields that are additional and add them to the AdditionalProperties field.
     t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
     for k, v := range m {
-        switch k {
-            {{ range $key, $value := .Properties -}}
-                case "{{convertKey $key}}":
-                    continue
-            {{ end -}}
-        default:
-            var value {{template "schema-name" .AdditionalProperties}}
-            if err := json.Unmarshal(v, &value); err != nil {
-                return err
-            }
-            t.AdditionalProperties[k] = value
+        var value {{template "schema-name" .AdditionalProperties}}
+        if err := json.Unmarshal(v, &value); err != nil {
+            return err
         }
+        t.AdditionalProperties[k] = value
     }
 
     return nil
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index 9d28939..e0bc3e5 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -18,6 +18,16 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
 
 	// Add additional properties
 	for k, v := range t.AdditionalProperties {
+    	{{- if .Properties}}
+    	// The declared properties are already there
+    	switch k {
+    	    {{- range $key, $value := .Properties}}
+    	    case "{{convertKey $key}}":
+    	        continue
+    	    {{- end}}
+    	}
+    	{{- end}}
+
     	if needSeparator {
     	    b = append(b, ',')
     	}
@@ -48,6 +58,20 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
         return err
     }
 
+    // Separate the declared properties from the additional ones: the names should be
+    // exactly the same, whereas unmarshalling to a struct ignores the case.
+    properties := make(map[string]json.RawMessage, len(m))
+    {{- range $key, $value := .Properties}}
+    if v, exists := m["{{convertKey $key}}"]; exists {
+        properties["{{convertKey $key}}"] = v
+        delete(m, "{{convertKey $key}}")
+    }
+    {{- end}}
+    data, err := json.Marshal(properties)
+    if err != nil {
+        return err
+    }
+
     // Unmarshal into the alias then copy the alias content into the original
     // object. This is done to avoid JSON unmarshal recursion.
     var a alias
@@ -59,18 +83,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     // Get all fields that are additional and add them to the AdditionalProperties field.
     t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
     for k, v := range m {
-        switch k {
-            {{ range $key, $value := .Properties -}}
-                case "{{convertKey $key}}":
-                    continue
-            {{ end -}}
-        default:
-            var value {{template "schema-name" .AdditionalProperties}}
-            if err := json.Unmarshal(v, &value); err != nil {
-                return err
-            }
-            t.AdditionalProperties[k] = value
+        var value {{template "schema-name" .AdditionalProperties}}
+        if err := json.Unmarshal(v, &value); err != nil {
+            return err
         }
+        t.AdditionalProperties[k] = value
     }
 
     return nil
-- 
2.43.0


From b7d771f3cc3c0948a360c39d6695e36ad3003310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 42/60] fix: generate the schemas that accept any value, and
 the arrays of them

---
 pkg/codegen/generators/v2/templates/schema_name.tmpl | 6 ++----
 pkg/codegen/generators/v3/templates/schema_name.tmpl | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 79c6940..6b2cca2 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -34,7 +34,7 @@ int64
 
 {{- /* --------------------------- Type Array --------------------------- */ -}}
 {{- else if eq .Type "array" -}}
-[]{{- template "schema-name" .Items -}}
+[]{{- if .Items }}{{ template "schema-name" .Items }}{{ else }}interface{}{{ end -}}
 
 {{- /* --------------------------- Type Number -------------------------- */ -}}
 {{- else if eq .Type "number" -}}
@@ -71,11 +71,9 @@ struct {
 {{- else if .ReferenceTo -}}
 {{ namify .Follow.Name }}
 
-{{- /* ----------------------- Unsupported use case ---------------------- */ -}}
+{{- /* ---------------------------- Any value --------------------------- */ -}}
 {{- else -}}
 interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
 {{- end -}}
 
 {{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 03bc71a..6b2cca2 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -34,7 +34,7 @@ int64
 
 {{- /* --------------------------- Type Array --------------------------- */ -}}
 {{- else if eq .Type "array" -}}
-[]{{- template "schema-name" .Items -}}
+[]{{- if .Items }}{{ template "schema-name" .Items }}{{ else }}interface{}{{ end -}}
 
 {{- /* --------------------------- Type Number -------------------------- */ -}}
 {{- else if eq .Type "number" -}}
@@ -71,11 +71,9 @@ struct {
 {{- else if .ReferenceTo -}}
 {{ namify .Follow.Name }}
 
-{{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
+{{- /* ---------------------------- Any value --------------------------- */ -}}
 {{- else -}}
 interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
 {{- end -}}
 
 {{- end -}}
-- 
2.43.0


From 8a6d3c74893e5c13fa6034797ae173e387469597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 43/60] fix: generate the marshaling of objects in arrays of
 arrays

---
 pkg/codegen/generators/v2/templates/helpers.go | 9 +++++----
 pkg/codegen/generators/v3/templates/helpers.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 17d2a70..9676221 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Use the items of the arrays, and of the arrays of arrays
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 4128b5a..f2815b7 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Use the items of the arrays, and of the arrays of arrays
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
-- 
2.43.0


From 8abcd34bfbab64f81273609650324ed5c1577112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 44/60] fix: accept the boolean schemas

---
 pkg/asyncapi/v2/schema.go | 37 +++++++++++++++++++++++++++++++++++++
 pkg/asyncapi/v3/schema.go | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index a1fd89e..671e77a 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,7 +1,11 @@
 package asyncapiv2
 
 import (
+	"encoding/json"
+	"fmt"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
@@ -47,6 +51,9 @@ type Schema struct {
 	// a schema can be reached from its parent and from the references to it.
 	dependenciesSet bool
 
+	// nothing indicates that this is the schema "false", which refuses everything.
+	nothing bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -64,6 +71,31 @@ func NewSchema() Schema {
 	}
 }
 
+// UnmarshalJSON unmarshals a schema, which is either an object or a boolean: "true"
+// accepts everything, as an empty schema does, and "false" refuses everything.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	switch string(data) {
+	case "true":
+		return nil
+	case "false":
+		s.nothing = true
+		return nil
+	}
+
+	// Unmarshal without this method
+	type alias Schema
+	if err := json.Unmarshal(data, (*alias)(s)); err != nil {
+		return err
+	}
+
+	// Refusing every additional property is the same as having none of them
+	if s.AdditionalProperties != nil && s.AdditionalProperties.nothing {
+		s.AdditionalProperties = nil
+	}
+
+	return nil
+}
+
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
 	// Prevent modification if nil
@@ -131,6 +163,11 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 	s.dependenciesSet = true
 
+	// No type accepts nothing
+	if s.nothing {
+		return fmt.Errorf("%w: %q is a schema that refuses everything", extensions.ErrAsyncAPI, s.Name)
+	}
+
 	// Reference to another schema if specified
 	if s.Reference != "" {
 		refTo, err := spec.ReferenceSchema(s.Reference)
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index a08d6c2..c72091f 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,9 +1,12 @@
 package asyncapiv3
 
 import (
+	"encoding/json"
+	"fmt"
 	"slices"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
@@ -66,6 +69,9 @@ type Schema struct {
 	// a schema can be reached from its parent and from the references to it.
 	dependenciesSet bool
 
+	// nothing indicates that this is the schema "false", which refuses everything.
+	nothing bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -84,6 +90,31 @@ func NewSchema() Schema {
 	}
 }
 
+// UnmarshalJSON unmarshals a schema, which is either an object or a boolean: "true"
+// accepts everything, as an empty schema does, and "false" refuses everything.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	switch string(data) {
+	case "true":
+		return nil
+	case "false":
+		s.nothing = true
+		return nil
+	}
+
+	// Unmarshal without this method
+	type alias Schema
+	if err := json.Unmarshal(data, (*alias)(s)); err != nil {
+		return err
+	}
+
+	// Refusing every additional property is the same as having none of them
+	if s.AdditionalProperties != nil && s.AdditionalProperties.nothing {
+		s.AdditionalProperties = nil
+	}
+
+	return nil
+}
+
 // generateMetadata generates metadata for the Schema and its children.
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
@@ -181,6 +212,11 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 	s.dependenciesSet = true
 
+	// No type accepts nothing
+	if s.nothing {
+		return fmt.Errorf("%w: %q is a schema that refuses everything", extensions.ErrAsyncAPI, s.Name)
+	}
+
 	// Set reference
 	if err := s.setReference(spec); err != nil {
 		return err
-- 
2.43.0


From 40c554558c9336c648f115955c788abf28976fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 45/60] fix: import the packages of all custom types, and once

---
 pkg/asyncapi/v2/extensions.go        | 80 +++++++++++++++++++++-------
 pkg/asyncapi/v3/extensions.go        | 74 ++++++++++++++++++++-----
 pkg/codegen/generators/v2/imports.go | 15 ++++++
 pkg/codegen/generators/v3/imports.go | 15 ++++++
 4 files changed, 151 insertions(+), 33 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 7f8703c..d06c89e 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -39,6 +39,11 @@ type GoTypeImportName string
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
 func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent use if nil
+	if s == nil {
+		return nil
+	}
+
 	// Process Properties
 	for _, p := range s.Properties {
 		if err := p.goTypeImports(imports); err != nil {
@@ -47,10 +52,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	}
 
 	// Process Items
-	if s.Items != nil {
-		if err := s.Items.goTypeImports(imports); err != nil {
-			return err
-		}
+	if err := s.Items.goTypeImports(imports); err != nil {
+		return err
+	}
+
+	// Process AdditionalProperties
+	if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+		return err
 	}
 
 	if s.ExtGoTypeImport != nil {
@@ -73,38 +81,72 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
 // Returns error when import name conflicts.
-func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
+func (s Specification) CustomImports() ([]string, error) {
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
 
+	if err := s.goTypeImports(importsSet); err != nil {
+		return nil, err
+	}
+
+	// The code of what is in the dependencies is also generated
+	for _, dependency := range s.Dependencies() {
+		if err := dependency.goTypeImports(importsSet); err != nil {
+			return nil, err
+		}
+	}
+
+	return importsMapToList(importsSet), nil
+}
+
+func (s Specification) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
 	for _, v := range s.Components.Schemas {
-		if err := v.goTypeImports(importsSet); err != nil {
-			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
+		if err := v.goTypeImports(imports); err != nil {
+			return fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(imports); err != nil {
+			return fmt.Errorf("/components/messages %w", err)
 		}
+	}
+
+	for _, v := range s.Channels {
+		for _, op := range []*Operation{v.Subscribe, v.Publish} {
+			if op == nil {
+				continue
+			}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+			if err := op.Message.goTypeImports(imports); err != nil {
+				return fmt.Errorf("/channels messages %w", err)
 			}
 		}
 	}
 
 	for _, v := range s.Components.Parameters {
-		if v.Schema != nil {
-			if err := v.Schema.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/parameters custom import error: %w", err)
-			}
+		if err := v.Schema.goTypeImports(imports); err != nil {
+			return fmt.Errorf("/components/parameters custom import error: %w", err)
 		}
 	}
 
-	return importsMapToList(importsSet), nil
+	return nil
+}
+
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent use if nil
+	if msg == nil {
+		return nil
+	}
+
+	if err := msg.Payload.goTypeImports(imports); err != nil {
+		return fmt.Errorf("payload custom import error: %w", err)
+	}
+
+	if err := msg.Headers.goTypeImports(imports); err != nil {
+		return fmt.Errorf("headers custom import error: %w", err)
+	}
+
+	return nil
 }
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index 646c84a..50ca41b 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -39,6 +39,11 @@ type GoTypeImportName string
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
 func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent use if nil
+	if s == nil {
+		return nil
+	}
+
 	// Process Properties
 	for _, p := range s.Properties {
 		if err := p.goTypeImports(imports); err != nil {
@@ -47,10 +52,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	}
 
 	// Process Items
-	if s.Items != nil {
-		if err := s.Items.goTypeImports(imports); err != nil {
-			return err
-		}
+	if err := s.Items.goTypeImports(imports); err != nil {
+		return err
+	}
+
+	// Process AdditionalProperties
+	if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+		return err
 	}
 
 	if s.ExtGoTypeImport != nil {
@@ -76,29 +84,67 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 func (s Specification) CustomImports() ([]string, error) {
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
 
+	if err := s.goTypeImports(importsSet); err != nil {
+		return nil, err
+	}
+
+	// The code of what is in the dependencies is also generated
+	for _, dependency := range s.Dependencies() {
+		if err := dependency.goTypeImports(importsSet); err != nil {
+			return nil, err
+		}
+	}
+
+	return importsMapToList(importsSet), nil
+}
+
+func (s Specification) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
 	for _, v := range s.Components.Schemas {
-		if err := v.goTypeImports(importsSet); err != nil {
-			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
+		if err := v.goTypeImports(imports); err != nil {
+			return fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(imports); err != nil {
+			return fmt.Errorf("/components/messages %w", err)
 		}
+	}
+
+	for _, channels := range []map[string]*Channel{s.Channels, s.Components.Channels} {
+		for _, v := range channels {
+			if v == nil {
+				continue
+			}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+			for _, msg := range v.Messages {
+				if err := msg.goTypeImports(imports); err != nil {
+					return fmt.Errorf("/channels messages %w", err)
+				}
 			}
 		}
 	}
 
 	// TODO: support Parameters
 
-	return importsMapToList(importsSet), nil
+	return nil
+}
+
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Prevent use if nil
+	if msg == nil {
+		return nil
+	}
+
+	if err := msg.Payload.goTypeImports(imports); err != nil {
+		return fmt.Errorf("payload custom import error: %w", err)
+	}
+
+	if err := msg.Headers.goTypeImports(imports); err != nil {
+		return fmt.Errorf("headers custom import error: %w", err)
+	}
+
+	return nil
 }
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
diff --git a/pkg/codegen/generators/v2/imports.go b/pkg/codegen/generators/v2/imports.go
index 615bc7a..259256b 100644
--- a/pkg/codegen/generators/v2/imports.go
+++ b/pkg/codegen/generators/v2/imports.go
@@ -2,6 +2,7 @@ package generatorv2
 
 import (
 	"bytes"
+	"strings"
 )
 
 // ImportsGenerator is a code generator for imports that will add needed imports
@@ -21,10 +22,24 @@ func (ig ImportsGenerator) Generate() (string, error) {
 		return "", err
 	}
 
+	// Generate only what is always imported
+	custom := ig.CustomImports
+	ig.CustomImports = nil
 	buf := new(bytes.Buffer)
 	if err := tmplt.Execute(buf, ig); err != nil {
 		return "", err
 	}
 
+	// Add the custom imports, but the ones that are already there
+	for _, imp := range custom {
+		if !strings.Contains(buf.String(), " "+imp+"\n") {
+			ig.CustomImports = append(ig.CustomImports, imp)
+		}
+	}
+	buf.Reset()
+	if err := tmplt.Execute(buf, ig); err != nil {
+		return "", err
+	}
+
 	return buf.String(), nil
 }
diff --git a/pkg/codegen/generators/v3/imports.go b/pkg/codegen/generators/v3/imports.go
index 3a4cf46..2c59f9e 100644
--- a/pkg/codegen/generators/v3/imports.go
+++ b/pkg/codegen/generators/v3/imports.go
@@ -2,6 +2,7 @@ package generatorv3
 
 import (
 	"bytes"
+	"strings"
 )
 
 // ImportsGenerator is a code generator for imports that will add needed imports
@@ -21,10 +22,24 @@ func (ig ImportsGenerator) Generate() (string, error) {
 		return "", err
 	}
 
+	// Generate only what is always imported
+	custom := ig.CustomImports
+	ig.CustomImports = nil
 	buf := new(bytes.Buffer)
 	if err := tmplt.Execute(buf, ig); err != nil {
 		return "", err
 	}
 
+	// Add the custom imports, but the ones that are already there
+	for _, imp := range custom {
+		if !strings.Contains(buf.String(), " "+imp+"\n") {
+			ig.CustomImports = append(ig.CustomImports, imp)
+		}
+	}
+	buf.Reset()
+	if err := tmplt.Execute(buf, ig); err != nil {
+		return "", err
+	}
+
 	return buf.String(), nil
 }
-- 
2.43.0


From 5408993e1a6b1a0688a70747976afed5c672678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 46/60] fix: keep the custom types of the components as they
 are

---
 .../generators/v2/templates/schema_definition.tmpl        | 8 ++++----
 .../generators/v3/templates/schema_definition.tmpl        | 8 ++++----
 pkg/utils/template/helpers.go                             | 1 +
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 162a34a..74d35bd 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -6,7 +6,7 @@
 {{end -}}
 
 {{- /* ----------------------------- Object ----------------------------- */ -}}
-{{- if eq .Type "object" -}}
+{{- if and (eq .Type "object") (not .ExtGoType) -}}
 
 type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
@@ -32,8 +32,8 @@ type {{ namify .Name }} struct {
 {{- /* ----------------------------- Others ----------------------------- */ -}}
 {{- else -}}
 
-{{- /* Use an alias for references, in order to keep the methods of the referenced type */}}
-type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{template "schema-name" .}}
+{{- /* Use an alias for references and types of packages, in order to keep the methods of the type */}}
+type {{ .Name }} {{if or (contains .ExtGoType ".") (and .ReferenceTo (not .Type) (not .ExtGoType))}}= {{end}}{{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if and (eq .Type "string") (isDateOrDateTimeGenerated .Format) (not .ExtGoType) -}}
@@ -43,7 +43,7 @@ type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{
 {{- end -}}
 
 {{- /* ------------------------- SubDefinitions ------------------------- */ -}}
-{{ if or (eq .Type "object") (eq .Type "array") -}}
+{{ if and (not .ExtGoType) (or (eq .Type "object") (eq .Type "array")) -}}
     {{- range $key, $value := getChildrenObjectSchemas . }}
         {{template "schema-definition" $value }}
     {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 162a34a..74d35bd 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -6,7 +6,7 @@
 {{end -}}
 
 {{- /* ----------------------------- Object ----------------------------- */ -}}
-{{- if eq .Type "object" -}}
+{{- if and (eq .Type "object") (not .ExtGoType) -}}
 
 type {{ namify .Name }} struct {
     {{- range $key, $value := .Properties -}}
@@ -32,8 +32,8 @@ type {{ namify .Name }} struct {
 {{- /* ----------------------------- Others ----------------------------- */ -}}
 {{- else -}}
 
-{{- /* Use an alias for references, in order to keep the methods of the referenced type */}}
-type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{template "schema-name" .}}
+{{- /* Use an alias for references and types of packages, in order to keep the methods of the type */}}
+type {{ .Name }} {{if or (contains .ExtGoType ".") (and .ReferenceTo (not .Type) (not .ExtGoType))}}= {{end}}{{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if and (eq .Type "string") (isDateOrDateTimeGenerated .Format) (not .ExtGoType) -}}
@@ -43,7 +43,7 @@ type {{ .Name }} {{if and .ReferenceTo (not .Type) (not .ExtGoType)}}= {{end}}{{
 {{- end -}}
 
 {{- /* ------------------------- SubDefinitions ------------------------- */ -}}
-{{ if or (eq .Type "object") (eq .Type "array") -}}
+{{ if and (not .ExtGoType) (or (eq .Type "object") (eq .Type "array")) -}}
     {{- range $key, $value := getChildrenObjectSchemas . }}
         {{template "schema-definition" $value }}
     {{- end}}
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 0220606..b91a7d6 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -166,6 +166,7 @@ func HelpersFunctions() template.FuncMap {
 		"describeStruct":            DescribeStruct,
 		"multiLineComment":          MultiLineComment,
 		"cutSuffix":                 CutSuffix,
+		"contains":                  strings.Contains,
 		"args":                      Args,
 	}
 }
-- 
2.43.0


From 86e26d0f0a0938cbdc47f2d46561675c6c500220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 47/60] fix: do not keep the options of a previous generation

---
 pkg/codegen/codegen.go                         |  4 ++++
 pkg/codegen/generators/v2/templates/helpers.go |  9 ++++++++-
 pkg/codegen/generators/v3/templates/helpers.go |  9 ++++++++-
 pkg/utils/template/helpers.go                  | 10 +++++++++-
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..a7e1130 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -90,9 +90,13 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
+	// Options of a previous generation should not be kept
+	template.EnableDateOrTimeGeneration()
 	if opt.IgnoreStringFormat {
 		template.DisableDateOrTimeGeneration()
 	}
+	templatesv2.ResetPointerOnFields()
+	templatesv3.ResetPointerOnFields()
 	if opt.ForcePointers {
 		templatesv2.ForcePointerOnFields()
 		templatesv3.ForcePointerOnFields()
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 9676221..a79eb82 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -142,7 +142,9 @@ func OperationName(channel asyncapi.Channel) string {
 	return templateutil.Namify(name)
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+var isFieldPointer = isOptionalFieldPointer
+
+func isOptionalFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
@@ -153,6 +155,11 @@ func ForcePointerOnFields() {
 	}
 }
 
+// ResetPointerOnFields is used to only generate optional fields as pointers, which is the default.
+func ResetPointerOnFields() {
+	isFieldPointer = isOptionalFieldPointer
+}
+
 // LocationStep is a step of the path from a message to one of its fields.
 type LocationStep struct {
 	// Path is the path of the struct attribute, from the message
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index f2815b7..a4985cf 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -128,7 +128,9 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return sprint[:len(sprint)-1] + ")"
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+var isFieldPointer = isOptionalFieldPointer
+
+func isOptionalFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
@@ -139,6 +141,11 @@ func ForcePointerOnFields() {
 	}
 }
 
+// ResetPointerOnFields is used to only generate optional fields as pointers, which is the default.
+func ResetPointerOnFields() {
+	isFieldPointer = isOptionalFieldPointer
+}
+
 // LocationStep is a step of the path from a message to one of its fields.
 type LocationStep struct {
 	// Path is the path of the struct attribute, from the message
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b91a7d6..2dfa581 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -144,10 +144,18 @@ func CutSuffix(s, suffix string) string {
 	return s
 }
 
-var isDateOrDateTimeGenerated = func(format string) bool {
+var isDateOrDateTimeGenerated = isDateOrDateTime
+
+func isDateOrDateTime(format string) bool {
 	return format == "date" || format == "date-time"
 }
 
+// EnableDateOrTimeGeneration is used to enable the generation of date/date-time formats within types,
+// which is the default.
+func EnableDateOrTimeGeneration() {
+	isDateOrDateTimeGenerated = isDateOrDateTime
+}
+
 // DisableDateOrTimeGeneration is used to disable the generation of date/date-time formats within types.
 func DisableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = func(_ string) bool { return false }
-- 
2.43.0


From 45962e0104beffcc584f5421bbd2eca8c3d0b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 48/60] fix: generate the encoding of all types of payloads and
 headers

---
 .../generators/v2/templates/message.tmpl      | 89 ++++++++++---------
 .../generators/v3/templates/message.tmpl      | 85 ++++++++++--------
 2 files changed, 94 insertions(+), 80 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index e9847a0..16bfa3d 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -53,7 +53,12 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
             t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
@@ -120,11 +125,18 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- $isPointer := isFieldPointer $headers $key $value }}
-                {{- if eq $header.Type "object" }}
+                {{- if ne $header.Type "string" }}
                     err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                     if err != nil {
                         return msg, err
                     }
+                {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                    d, err := civil.ParseDate(string(v))
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(d)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
                 {{- else if isDateOrDateTimeGenerated $header.Format }}
                     t, err := time.Parse(time.RFC3339, string(v))
                     if err != nil {
@@ -156,13 +168,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- if eq $payload.Type "integer"}}
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
@@ -180,12 +186,21 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             payload := make([]byte, 8)
             binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to RFC3339 full-date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
         payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
-    {{- else}}
+    {{- else if eq $payload.Type "string"}}
         // Convert to []byte
         payload := []byte(msg.Payload)
+    {{- else}}
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
@@ -201,42 +216,34 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             {{- $header := $value.Follow}}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                    if msg.Headers.{{ namify $key}} == nil {
+            {{- $dereferenceOp := "" -}}
+            {{- if isFieldPointer $headers $key $value -}}
+                {{- $dereferenceOp = "*" }}
+            {{- end -}}
+            {{- if not $value.IsRequired }}
+                if msg.Headers.{{namify $key}} != nil {
+            {{- else }}
+                {{- if $dereferenceOp }}
+                     if msg.Headers.{{ namify $key}} == nil {
                         return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                     }
+                {{- end }}
+                {
+            {{- end }}
+            {{- if ne $header.Type "string" }}
+                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return extensions.BrokerMessage{}, err
                     }
-                {{- end -}}
-                {{- if eq $header.Type "object" }}
-                    {
-                        h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    }
-                {{- else if isDateOrDateTimeGenerated $header.Format }}
+                    headers["{{$key}}"] = h
+            {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                    headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+            {{- else if isDateOrDateTimeGenerated $header.Format }}
                     headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
-                {{- else }}
+            {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
-                if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $header.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $header.Format }}
-                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
-                }
             {{- end }}
+                }
         {{- end}}
         {{ else -}}
         // There is no headers here
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index d711d6a..5038db5 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -59,7 +59,12 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
             t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
@@ -126,11 +131,18 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $header := $value.Follow}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- $isPointer := isFieldPointer $headers $key $value }}
-                {{- if eq $header.Type "object" }}
+                {{- if ne $header.Type "string" }}
                     err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
                     if err != nil {
                         return msg, err
                     }
+                {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                    d, err := civil.ParseDate(string(v))
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(d)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
                 {{- else if isDateOrDateTimeGenerated $header.Format }}
                     t, err := time.Parse(time.RFC3339, string(v))
                     if err != nil {
@@ -162,13 +174,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- if eq $payload.Type "integer"}}
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
@@ -186,12 +192,21 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             payload := make([]byte, 8)
             binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
+    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to RFC3339 full-date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
     {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
         // Convert to RFC3339 and to []byte
         payload := []byte(time.Time(msg.Payload).Format(time.RFC3339Nano))
-    {{- else}}
+    {{- else if eq $payload.Type "string"}}
         // Convert to []byte
         payload := []byte(msg.Payload)
+    {{- else}}
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
@@ -208,42 +223,34 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             {{- $header := $value.Follow}}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
+            {{- $dereferenceOp := "" -}}
+            {{- if isFieldPointer $headers $key $value -}}
+                {{- $dereferenceOp = "*" }}
+            {{- end -}}
+            {{- if not $value.IsRequired }}
+                if msg.Headers.{{namify $key}} != nil {
+            {{- else }}
+                {{- if $dereferenceOp }}
                      if msg.Headers.{{ namify $key}} == nil {
                         return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                      }
-                {{- end -}}
-                {{- if eq $header.Type "object" }}
-                    {
-                        h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
+                {{- end }}
+                {
+            {{- end }}
+            {{- if ne $header.Type "string" }}
+                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return extensions.BrokerMessage{}, err
                     }
-                {{- else if isDateOrDateTimeGenerated $header.Format }}
+                    headers["{{$key}}"] = h
+            {{- else if and (isDateOrDateTimeGenerated $header.Format) (eq $header.Format "date") }}
+                    headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+            {{- else if isDateOrDateTimeGenerated $header.Format }}
                     headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
-                {{- else }}
+            {{- else }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
-                if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $header.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $header.Format }}
-                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339Nano))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
-                }
             {{- end }}
+                }
         {{- end}}
         {{ else -}}
         // There is no headers here
-- 
2.43.0


From 8a577723f57624ea92f70c2cb9019f79b1ee2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 49/60] fix: use the messages of the replies of operations

---
 pkg/asyncapi/v3/operation.go                  |  7 +++---
 .../generators/v3/templates/controller.tmpl   | 22 +++++++++----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index c45fb15..839c534 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -191,9 +191,10 @@ func (op *Operation) generateReply() {
 	// Generate reply
 	ch := op.Reply.Channel.Follow()
 	op.ReplyIs = &Operation{
-		Name:    "ReplyTo" + op.Name,
-		Channel: ch,
-		ReplyOf: op,
+		Name:     "ReplyTo" + op.Name,
+		Channel:  ch,
+		Messages: op.Reply.Messages,
+		ReplyOf:  op,
 	}
 }
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 09e1ea0..e77a2a1 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -262,7 +262,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
 func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
     // Create reply message
     replyMsg := New{{opToMsgTypeName $value.ReplyIs }}()
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
 	replyMsg.SetAsResponseFrom(&recvMsg)
     {{- end}}
 
@@ -403,14 +403,14 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
     msg {{opToMsgTypeName $value}},
-) ({{channelToMessageTypeName .Reply.Channel}}, error) {
+) ({{opToMsgTypeName .ReplyIs}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
         {{- $steps := getLocationSteps $value.GetMessage.Follow .Reply.Address.Location }}
         {{- range $steps}}
             {{- if .IsPointer}}
             if msg.{{.Path}} == nil {
-                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return {{opToMsgTypeName $value.ReplyIs}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
             {{- end}}
         {{- end}}
@@ -418,7 +418,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
             addr := {{if .Schema.Reference}}string({{end}}{{if .IsPointer}}*{{end}}msg.{{.Path}}{{if .Schema.Reference}}){{end}}
         {{- end }}
         if addr == "" {
-            return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            return {{opToMsgTypeName $value.ReplyIs}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
         }
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
@@ -432,7 +432,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     sub, err := c.broker.Subscribe(ctx, addr)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        return {{opToMsgTypeName .ReplyIs}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -455,7 +455,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Send the message 
     if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
-        return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
+        return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
 
     // Wait for corresponding response
@@ -464,7 +464,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{channelToMessageTypeName .Reply.Channel}}{}, err
+            return {{opToMsgTypeName .ReplyIs}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -483,7 +483,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     {{- if $value.GetMessage.HaveCorrelationID}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
-) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
+) (*{{opToMsgTypeName .ReplyIs}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
@@ -503,9 +503,9 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, extensions.ErrSubscriptionCanceled
         }
 
-        {{if $value.GetMessage.HaveCorrelationID -}}
+        {{if and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID -}}
         // Get new message
-        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err := brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -534,7 +534,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not (and $value.GetMessage.HaveCorrelationID $value.ReplyIs.GetMessage.HaveCorrelationID)}}:{{end}}= brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From b5b484abc8050f552a8f721ff2b709e14ed8cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 50/60] fix: use the messages of the operations of the side for
 channels with both of them

---
 .../generators/v2/templates/controller.tmpl   | 35 +++++++++++--------
 .../generators/v2/templates/subscriber.tmpl   |  7 +++-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 2436948..5a606fc 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -1,3 +1,10 @@
+{{- /* Operations received and sent by this side of the specification */}}
+{{- $received := "subscribe"}}
+{{- $sent := "publish"}}
+{{- if eq .Prefix "App"}}
+    {{- $received = "publish"}}
+    {{- $sent = "subscribe"}}
+{{- end -}}
 // {{ .Prefix }}Controller is the structure that provides publishing capabilities to the
 // developer and and connect the broker with the {{ .Prefix }}
 type {{ .Prefix }}Controller struct {
@@ -147,7 +154,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     {{- if .Parameters}}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -197,7 +204,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -220,12 +227,12 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
 
-        {{if ne (channelToMessage $value "subscribe").CorrelationIDLocation "" -}}
+        {{if ne (channelToMessage $value $received).CorrelationIDLocation "" -}}
             // Add correlation ID to context if it exists
             if id := msg.CorrelationID(); id != "" {
                 middlewareCtx = context.WithValue(middlewareCtx, extensions.ContextKeyIsCorrelationID, id)
@@ -286,12 +293,12 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     {{- if .Parameters }}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value "publish").Name}},
+    msg {{(channelToMessage $value $sent).Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     // Set correlation ID if it does not exist
     if id := msg.CorrelationID(); id == "" {
         msg.SetCorrelationID(uuid.New().String())
@@ -301,7 +308,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{- end}}
 
@@ -337,7 +344,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value "subscribe").Name}}, error) {
+) ({{(channelToMessage $value $received).Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -349,7 +356,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $received).Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -364,7 +371,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $received).Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -373,7 +380,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{(channelToMessage $value "subscribe").Name}}{}, err
+            return {{(channelToMessage $value $received).Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -390,7 +397,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value "subscribe").Name}}, error) {
+) (*{{(channelToMessage $value $received).Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -409,7 +416,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -431,7 +438,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index d429d44..cf3ce94 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -1,9 +1,14 @@
+{{- /* Operation received by this side of the specification */}}
+{{- $received := "subscribe"}}
+{{- if eq .Prefix "App"}}
+    {{- $received = "publish"}}
+{{- end -}}
 {{if .MethodCount -}}
 // {{ .Prefix }}Subscriber represents all handlers that are expecting messages for {{ .Prefix }}
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From 86803fabe0bdccffa64055cf38db2185be7b376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 51/60] fix: do not wait for commits of closed kafka readers

---
 pkg/extensions/brokers/kafka/kafka.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 8ab0553..f4ddb1c 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -219,15 +219,20 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
+	// Nothing can be committed once the reader is closed: do not wait for it
+	readerCtx, cancelReaderCtx := context.WithCancel(ctx)
+
 	// Handle events
 	if c.autoCommit {
-		go autoCommitMessagesHandler(&c.logger)(ctx, r, sub)
+		go autoCommitMessagesHandler(&c.logger)(readerCtx, r, sub)
 	} else {
-		go manualCommitMessagesHandler(&c.logger)(ctx, r, sub)
+		go manualCommitMessagesHandler(&c.logger)(readerCtx, r, sub)
 	}
 
 	// Wait for cancellation and stop the kafka listener when it happens
 	sub.WaitForCancellationAsync(func() {
+		defer cancelReaderCtx()
+
 		if err := r.Close(); err != nil {
 			c.logger.Error(ctx, err.Error())
 		}
-- 
2.43.0


From b351596591b2004ba9320a37dcd654acb50bb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 52/60] fix: continue to read from kafka after errors

---
 pkg/extensions/brokers/kafka/kafka.go | 36 ++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index f4ddb1c..2e1941f 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -281,6 +281,19 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 	}
 }
 
+// isReaderOver returns true if there is nothing more to read after this error,
+// because the reader is closed or the context is over. Otherwise, the reader
+// continues to read the messages after the error.
+func isReaderOver(ctx context.Context, logger *extensions.Logger, err error) bool {
+	if errors.Is(err, io.EOF) || ctx.Err() != nil {
+		return true
+	}
+
+	(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+
+	return false
+}
+
 // autoCommitMessagesHandler provides a MessagesHandler with auto commit.
 //
 // Using auto commit could result in an offset being committed before the
@@ -292,14 +305,20 @@ func autoCommitMessagesHandler(
 ) func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 	return func(ctx context.Context, r *kafka.Reader, sub extensions.BrokerChannelSubscription) {
 		for {
-			msg, err := r.ReadMessage(ctx)
+			msg, err := r.FetchMessage(ctx)
 			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				if isReaderOver(ctx, logger, err) {
+					return
 				}
 
-				return
+				continue
+			}
+
+			// Commit the message, if there is a group to commit it for
+			if r.Config().GroupID != "" {
+				if err := r.CommitMessages(ctx, msg); err != nil {
+					(*logger).Error(ctx, fmt.Sprintf("error on committing message: %q", err.Error()))
+				}
 			}
 
 			// Get headers
@@ -328,12 +347,11 @@ func manualCommitMessagesHandler(
 		for {
 			msg, err := r.FetchMessage(ctx)
 			if err != nil {
-				// If the error is not io.EOF, then it is a real error
-				if !errors.Is(err, io.EOF) {
-					(*logger).Warning(ctx, fmt.Sprintf("Error when reading message: %q", err.Error()))
+				if isReaderOver(ctx, logger, err) {
+					return
 				}
 
-				return
+				continue
 			}
 
 			// Get headers
-- 
2.43.0


From 56cdad281ecfcc5ba6cb821e6ac21d21b8a8d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 53/60] fix: close the connections of the kafka publications

---
 pkg/extensions/brokers/kafka/kafka.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 2e1941f..d46d402 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -75,11 +75,12 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
 
+		defer conn.Close()
+
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
@@ -145,17 +146,23 @@ func WithConnectionTest(enabled bool) ControllerOption {
 
 // Publish a message to the broker.
 func (c *Controller) Publish(ctx context.Context, channel string, um extensions.BrokerMessage) error {
+	// Create new transport
+	transport := &kafka.Transport{
+		// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
+		// it can be nil
+		TLS:  c.dialer.TLS.Clone(),
+		SASL: c.dialer.SASLMechanism,
+	}
+
+	// The writer doesn't close the connections of a transport that is given to it
+	defer transport.CloseIdleConnections()
+
 	// Create new writer
 	w := kafka.Writer{
-		Addr:     kafka.TCP(c.hosts...),
-		Topic:    channel,
-		Balancer: &kafka.LeastBytes{},
-		Transport: &kafka.Transport{
-			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
-			// it can be nil
-			TLS:  c.dialer.TLS.Clone(),
-			SASL: c.dialer.SASLMechanism,
-		},
+		Addr:      kafka.TCP(c.hosts...),
+		Topic:     channel,
+		Balancer:  &kafka.LeastBytes{},
+		Transport: transport,
 	}
 
 	defer w.Close()
-- 
2.43.0


From 458398d45aead045f56ad0ed9e93853fca06a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 54/60] fix: publish to kafka with acknowledgments

---
 pkg/extensions/brokers/kafka/kafka.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index d46d402..c3bbefc 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -159,10 +159,12 @@ func (c *Controller) Publish(ctx context.Context, channel string, um extensions.
 
 	// Create new writer
 	w := kafka.Writer{
-		Addr:      kafka.TCP(c.hosts...),
-		Topic:     channel,
-		Balancer:  &kafka.LeastBytes{},
-		Transport: transport,
+		Addr:     kafka.TCP(c.hosts...),
+		Topic:    channel,
+		Balancer: &kafka.LeastBytes{},
+		// Without acknowledgment, the errors of kafka are ignored and the message lost
+		RequiredAcks: kafka.RequireAll,
+		Transport:    transport,
 	}
 
 	defer w.Close()
-- 
2.43.0


From 5354432806d60699ecabf8888b0f7cff32ba69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 55/60] fix: accept the constraints and examples that asyncapi
 allows

---
 pkg/asyncapi/schema.go             |  4 +--
 pkg/asyncapi/v3/message_example.go |  2 +-
 pkg/asyncapi/v3/schema.go          | 50 +++++++++++++++++-------------
 3 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index 50e5d06..b1a554c 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -4,7 +4,7 @@ package asyncapi
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
 	Required         []string `json:"required"`
-	MultipleOf       []string `json:"multipleOf"`
+	MultipleOf       *float64 `json:"multipleOf"`
 	Maximum          *float64 `json:"maximum"`
 	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
 	Minimum          *float64 `json:"minimum"`
@@ -37,7 +37,7 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.Required) > 0 {
 		v.Required = newV.Required
 	}
-	if len(newV.MultipleOf) > 0 {
+	if newV.MultipleOf != nil {
 		v.MultipleOf = newV.MultipleOf
 	}
 	if newV.Maximum != nil {
diff --git a/pkg/asyncapi/v3/message_example.go b/pkg/asyncapi/v3/message_example.go
index 6e1754a..861d640 100644
--- a/pkg/asyncapi/v3/message_example.go
+++ b/pkg/asyncapi/v3/message_example.go
@@ -7,7 +7,7 @@ type MessageExample struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Headers   map[string]any `json:"headers"`
-	Payload   map[string]any `json:"payload"`
+	Payload   any            `json:"payload"`
 	Name      string         `json:"name"`
 	Summary   string         `json:"summary"`
 	Reference string         `json:"$ref"`
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index c72091f..1b90347 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -43,10 +43,10 @@ type Schema struct {
 	Properties           map[string]*Schema `json:"properties"`
 	PatternProperties    map[string]*Schema `json:"patternProperties"`
 	AdditionalProperties *Schema            `json:"additionalProperties"`
-	AdditionalItems      []*Schema          `json:"additionalItems"`
+	AdditionalItems      *Schema            `json:"additionalItems"`
 	Items                *Schema            `json:"items"`
-	PropertyNames        []string           `json:"propertyNames"`
-	Contains             []*Schema          `json:"contains"`
+	PropertyNames        *Schema            `json:"propertyNames"`
+	Contains             *Schema            `json:"contains"`
 	AllOf                []*Schema          `json:"allOf"`
 	AnyOf                []*Schema          `json:"anyOf"`
 	OneOf                []*Schema          `json:"oneOf"`
@@ -107,10 +107,13 @@ func (s *Schema) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	// Refusing every additional property is the same as having none of them
+	// Refusing every additional property, or item, is the same as having none of them
 	if s.AdditionalProperties != nil && s.AdditionalProperties.nothing {
 		s.AdditionalProperties = nil
 	}
+	if s.AdditionalItems != nil && s.AdditionalItems.nothing {
+		s.AdditionalItems = nil
+	}
 
 	return nil
 }
@@ -150,10 +153,13 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Additional Items metadata
-	for i, item := range s.AdditionalItems {
-		if err := item.generateMetadata(s.Name, "Additional_Item", &i, false); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.generateMetadata(s.Name, "Additional_Item", nil, false); err != nil {
+		return err
+	}
+
+	// Generate Property Names metadata
+	if err := s.PropertyNames.generateMetadata(s.Name, "Property_Name", nil, false); err != nil {
+		return err
 	}
 
 	// Generate Items metadata
@@ -163,10 +169,8 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Contains metadata
-	for i, item := range s.Contains {
-		if err := item.generateMetadata("", s.Name+"_Content", &i, false); err != nil {
-			return err
-		}
+	if err := s.Contains.generateMetadata("", s.Name+"_Content", nil, false); err != nil {
+		return err
 	}
 
 	// Generate AnyOf metadata
@@ -244,10 +248,13 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 
 	// Set Additional Items dependencies
-	for _, item := range s.AdditionalItems {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.setDependencies(spec); err != nil {
+		return err
+	}
+
+	// Set Property Names dependencies
+	if err := s.PropertyNames.setDependencies(spec); err != nil {
+		return err
 	}
 
 	// Set Items dependencies
@@ -256,10 +263,8 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 
 	// Set Contains dependencies
-	for _, item := range s.Contains {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+	if err := s.Contains.setDependencies(spec); err != nil {
+		return err
 	}
 
 	// Set AnyOf dependencies
@@ -557,9 +562,10 @@ func (s *Schema) clone() *Schema {
 	c.Properties = cloneMap(s.Properties)
 	c.PatternProperties = cloneMap(s.PatternProperties)
 	c.AdditionalProperties = s.AdditionalProperties.clone()
-	c.AdditionalItems = cloneSlice(s.AdditionalItems)
+	c.AdditionalItems = s.AdditionalItems.clone()
+	c.PropertyNames = s.PropertyNames.clone()
 	c.Items = s.Items.clone()
-	c.Contains = cloneSlice(s.Contains)
+	c.Contains = s.Contains.clone()
 	c.AllOf = cloneSlice(s.AllOf)
 	c.AnyOf = cloneSlice(s.AnyOf)
 	c.OneOf = cloneSlice(s.OneOf)
-- 
2.43.0


From 170393c0c3f985634bfc0ff2fb796ca86fa2dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 56/60] fix: quote the version of the document in the generated
 code

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl      | 2 +-
 pkg/codegen/generators/v3/templates/controller.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/types.tmpl      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 5a606fc..586593f 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -93,7 +93,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, path string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, path)
 }
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index 4b4d5ea..49f868c 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index e77a2a1..ec73ab7 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, addr string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, addr)
 }
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index 51fc820..de44384 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
-- 
2.43.0


From 5d0ce0903cbba7133f5c6b0a760885a1ba527e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 57/60] fix: follow the references to correlation IDs with
 asyncapi v2

---
 pkg/asyncapi/v2/components.go     | 14 +++++++++++---
 pkg/asyncapi/v2/correlation_id.go | 29 +++++++++++++++++++++++++++++
 pkg/asyncapi/v2/message.go        |  5 +++++
 pkg/asyncapi/v2/specification.go  | 26 ++++++++++++++++++++++++++
 4 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index f6d1be0..72609b6 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -6,9 +6,10 @@ package asyncapiv2
 type Components struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
-	Messages   map[string]*Message   `json:"messages"`
-	Schemas    map[string]*Schema    `json:"schemas"`
-	Parameters map[string]*Parameter `json:"parameters"`
+	Messages       map[string]*Message       `json:"messages"`
+	Schemas        map[string]*Schema        `json:"schemas"`
+	Parameters     map[string]*Parameter     `json:"parameters"`
+	CorrelationIDs map[string]*CorrelationID `json:"correlationIds"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 }
@@ -62,5 +63,12 @@ func (c *Components) setDependencies(spec Specification) error {
 		}
 	}
 
+	// For all correlation IDs, set correlation ID dependencies
+	for _, correlationID := range c.CorrelationIDs {
+		if err := correlationID.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
diff --git a/pkg/asyncapi/v2/correlation_id.go b/pkg/asyncapi/v2/correlation_id.go
index b2594f2..d99a008 100644
--- a/pkg/asyncapi/v2/correlation_id.go
+++ b/pkg/asyncapi/v2/correlation_id.go
@@ -8,6 +8,35 @@ type CorrelationID struct {
 
 	Description string `json:"description"`
 	Location    string `json:"location"`
+	Reference   string `json:"$ref"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
+
+	ReferenceTo *CorrelationID `json:"-"`
+}
+
+// setDependencies sets dependencies for the correlation ID from specification.
+func (c *CorrelationID) setDependencies(spec Specification) error {
+	// Prevent modification if nil, without reference or already done
+	if c == nil || c.Reference == "" || c.ReferenceTo != nil {
+		return nil
+	}
+
+	// Add pointer to reference
+	refTo, err := spec.ReferenceCorrelationID(c.Reference)
+	if err != nil {
+		return err
+	}
+	c.ReferenceTo = refTo
+	if err := checkReferences(c.Reference, c, func(r *CorrelationID) *CorrelationID { return r.ReferenceTo }); err != nil {
+		return err
+	}
+
+	// Use the referenced location
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
+	c.Location = refTo.Location
+
+	return nil
 }
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 07bcff2..57c6e09 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -169,6 +169,11 @@ func (msg *Message) generateCorrelationIDMetadata() {
 }
 
 func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
+	// Set the location of the CorrelationID
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Generate CorrelationID metadata, now that headers and payload are complete
 	msg.generateCorrelationIDMetadata()
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 1052c5c..3d1ef5c 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -156,6 +156,30 @@ func (s Specification) ReferenceParameter(ref string) (*Parameter, error) {
 	return param, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceMessage returns the Message struct corresponding to the given reference.
 func (s Specification) ReferenceMessage(ref string) (*Message, error) {
 	// Get object pointed by reference
@@ -259,6 +283,8 @@ func (s Specification) reference(ref string) (any, error) {
 			return schema.referenceFrom(refPath[3:]), nil
 		case "parameters":
 			return usedSpec.Components.Parameters[refPath[2]], nil
+		case "correlationIds":
+			return usedSpec.Components.CorrelationIDs[refPath[2]], nil
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
-- 
2.43.0


From e7fc3dd9305e6d81c41711d092a980be5a78875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 58/60] fix: follow the references to parts of components

---
 pkg/asyncapi/v2/components.go                      |  3 +++
 pkg/asyncapi/v2/message.go                         |  3 ++-
 pkg/asyncapi/v2/schema.go                          | 14 ++++++++++++++
 pkg/asyncapi/v3/components.go                      |  3 +++
 pkg/asyncapi/v3/message.go                         |  5 ++++-
 pkg/asyncapi/v3/schema.go                          | 14 ++++++++++++++
 .../generators/v2/templates/schema_name.tmpl       |  4 ++++
 .../generators/v3/templates/schema_name.tmpl       |  4 ++++
 8 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index 72609b6..a758abb 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -18,6 +18,9 @@ type Components struct {
 func (c *Components) generateMetadata() error {
 	// For all schemas, generate schema metadata
 	for name, schema := range c.Schemas {
+		if schema != nil {
+			schema.HasType = true
+		}
 		if err := schema.generateMetadata(name+"_Schema", false); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 57c6e09..df9a1da 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -73,6 +73,7 @@ func (msg *Message) generateMetadata(name string) error {
 		if err := msg.Payload.generateMetadata(msg.Name+"_Payload", false); err != nil {
 			return err
 		}
+		msg.Payload.HasType = msg.Payload.HasType || msg.Payload.Type == SchemaTypeIsArray.String()
 	}
 
 	// Generate Headers metadata
@@ -327,7 +328,7 @@ func (msg *Message) referenceFrom(ref []string) any {
 	var next *Schema
 	if ref[0] == "payload" {
 		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
+	} else if ref[0] == "headers" || ref[0] == MessageFieldIsHeader.String() {
 		next = msg.Headers
 	}
 
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 671e77a..96b957c 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -51,6 +51,10 @@ type Schema struct {
 	// a schema can be reached from its parent and from the references to it.
 	dependenciesSet bool
 
+	// HasType indicates that a type is generated for this schema, even if it is not
+	// an object: it can be referenced by its name.
+	HasType bool `json:"-"`
+
 	// nothing indicates that this is the schema "false", which refuses everything.
 	nothing bool
 
@@ -370,6 +374,16 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 		return s
 	}
 
+	switch {
+	case ref[0] == "properties" && len(ref) > 1 && s.Properties[ref[1]] != nil:
+		return s.Properties[ref[1]].referenceFrom(ref[2:])
+	case ref[0] == "items" && s.Items != nil:
+		return s.Items.referenceFrom(ref[1:])
+	case ref[0] == "additionalProperties" && s.AdditionalProperties != nil:
+		return s.AdditionalProperties.referenceFrom(ref[1:])
+	}
+
+	// Properties can also be referenced directly by their name
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 1c8ba41..e66c818 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -38,6 +38,9 @@ func (c *Components) generateMetadata() error {
 
 	// Generate schemas metadata
 	for name, schema := range c.Schemas {
+		if schema != nil {
+			schema.HasType = true
+		}
 		if err := schema.generateMetadata("", name+"_Schema", nil, false); err != nil {
 			return err
 		}
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5738246..4319124 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -81,6 +81,9 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 	if err := msg.Payload.generateMetadata("", msg.Name+"_Payload", nil, false); err != nil {
 		return err
 	}
+	if msg.Payload != nil {
+		msg.Payload.HasType = msg.Payload.HasType || msg.Payload.Type == SchemaTypeIsArray.String()
+	}
 
 	// Generate Headers metadata
 	if err := msg.generateHeadersMetadata(); err != nil {
@@ -396,7 +399,7 @@ func (msg *Message) referenceFrom(ref []string) any {
 	var next *Schema
 	if ref[0] == "payload" {
 		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
+	} else if ref[0] == "headers" || ref[0] == MessageFieldIsHeader.String() {
 		next = msg.Headers
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 1b90347..fdff7e2 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -69,6 +69,10 @@ type Schema struct {
 	// a schema can be reached from its parent and from the references to it.
 	dependenciesSet bool
 
+	// HasType indicates that a type is generated for this schema, even if it is not
+	// an object: it can be referenced by its name.
+	HasType bool `json:"-"`
+
 	// nothing indicates that this is the schema "false", which refuses everything.
 	nothing bool
 
@@ -371,6 +375,16 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 		return s
 	}
 
+	switch {
+	case ref[0] == "properties" && len(ref) > 1 && s.Properties[ref[1]] != nil:
+		return s.Properties[ref[1]].referenceFrom(ref[2:])
+	case ref[0] == "items" && s.Items != nil:
+		return s.Items.referenceFrom(ref[1:])
+	case ref[0] == "additionalProperties" && s.AdditionalProperties != nil:
+		return s.AdditionalProperties.referenceFrom(ref[1:])
+	}
+
+	// Properties can also be referenced directly by their name
 	return s.Properties[ref[0]].referenceFrom(ref[1:])
 }
 
diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 6b2cca2..5d5d861 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -69,7 +69,11 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
+{{- if or .Follow.HasType (eq .Follow.Type "object") -}}
 {{ namify .Follow.Name }}
+{{- else -}}
+{{ template "schema-name" .Follow }}
+{{- end -}}
 
 {{- /* ---------------------------- Any value --------------------------- */ -}}
 {{- else -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 6b2cca2..5d5d861 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -69,7 +69,11 @@ struct {
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
 {{- else if .ReferenceTo -}}
+{{- if or .Follow.HasType (eq .Follow.Type "object") -}}
 {{ namify .Follow.Name }}
+{{- else -}}
+{{ template "schema-name" .Follow }}
+{{- end -}}
 
 {{- /* ---------------------------- Any value --------------------------- */ -}}
 {{- else -}}
-- 
2.43.0


From ad76eb3da332d19a2d564b7c6456c192da136470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 59/60] fix: unescape the JSON pointers of references and
 locations

The names of a JSON pointer write '~' as '~0' and '/' as '~1': references to
components, channels or properties having such a character in their name were
either refused, or designated something else.
---
 pkg/asyncapi/v2/message.go                     |  4 ++--
 pkg/asyncapi/v2/operation.go                   |  5 ++---
 pkg/asyncapi/v2/specification.go               |  2 +-
 pkg/asyncapi/v3/message.go                     |  4 ++--
 pkg/asyncapi/v3/operation_reply_address.go     |  4 ++--
 pkg/asyncapi/v3/specification.go               |  2 +-
 pkg/codegen/generators/v2/templates/helpers.go |  2 +-
 pkg/codegen/generators/v3/templates/helpers.go |  2 +-
 pkg/utils/string.go                            | 15 ++++++++++++++-
 9 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index df9a1da..22bcb0f 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -241,7 +241,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilCorrelationID()
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := utils.SplitJSONPointer(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -292,7 +292,7 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
 	var exists bool
 
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := utils.SplitJSONPointer(msg.CorrelationID.Location)
 	for i, v := range path[1:] {
 		// Keep the parent, behind references if there are some
 		correlationIDParent = child.Follow()
diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index 03341a9..002bde3 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -1,8 +1,7 @@
 package asyncapiv2
 
 import (
-	"strings"
-
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
@@ -27,7 +26,7 @@ func (op *Operation) generateMetadata(name string) error {
 	// Get message name
 	// NOTE: invalid references are reported when setting dependencies
 	msgName := op.Name
-	if path := strings.Split(op.Message.Reference, "/"); len(path) > 3 {
+	if path := utils.SplitJSONPointer(op.Message.Reference); len(path) > 3 {
 		msgName = path[3]
 	}
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 3d1ef5c..b48ea2d 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -264,7 +264,7 @@ func (s Specification) reference(ref string) (any, error) {
 
 	// Separate each part of the reference
 	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
+	refPath := utils.SplitJSONPointer(ref)
 
 	switch refPath[0] {
 	case "components":
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 4319124..5242a7c 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -308,7 +308,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilLocation(msg.CorrelationID.Location)
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := utils.SplitJSONPointer(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -363,7 +363,7 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
 	var exists bool
 
-	path := strings.Split(location, "/")
+	path := utils.SplitJSONPointer(location)
 	for i, v := range path[1:] {
 		// Keep the parent, behind references if there are some
 		locationParent = child.Follow()
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 6c3fa21..1c24abd 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -1,7 +1,7 @@
 package asyncapiv3
 
 import (
-	"strings"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // OperationReplyAddress is a representation of the corresponding asyncapi object
@@ -92,6 +92,6 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 	}
 
 	locationParent := msg.createTreeUntilLocation(ora.Location)
-	path := strings.Split(ora.Location, "/")
+	path := utils.SplitJSONPointer(ora.Location)
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index c8e24dd..70ece3e 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -718,7 +718,7 @@ func (s Specification) reference(ref string) (any, error) {
 
 	// Separate each part of the reference
 	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
+	refPath := utils.SplitJSONPointer(ref)
 
 	switch refPath[0] {
 	case "components":
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index a79eb82..e8168d4 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -173,7 +173,7 @@ type LocationStep struct {
 // GetLocationSteps returns the steps from the message to the field that is at the
 // given location, without the headers or the payload.
 func GetLocationSteps(msg asyncapi.Message, location string) []LocationStep {
-	path := strings.Split(location, "/")
+	path := utils.SplitJSONPointer(location)
 	field, parent := "Payload", msg.Payload
 	if strings.HasPrefix(location, "$message.header#") {
 		field, parent = "Headers", msg.Headers
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index a4985cf..0105e99 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -159,7 +159,7 @@ type LocationStep struct {
 // GetLocationSteps returns the steps from the message to the field that is at the
 // given location, without the headers or the payload.
 func GetLocationSteps(msg asyncapi.Message, location string) []LocationStep {
-	path := strings.Split(location, "/")
+	path := utils.SplitJSONPointer(location)
 	field, parent := "Payload", msg.Payload
 	if strings.HasPrefix(location, "$message.header#") {
 		field, parent = "Headers", msg.Headers
diff --git a/pkg/utils/string.go b/pkg/utils/string.go
index ef6f5d7..1303f92 100644
--- a/pkg/utils/string.go
+++ b/pkg/utils/string.go
@@ -1,6 +1,9 @@
 package utils
 
-import "unicode"
+import (
+	"strings"
+	"unicode"
+)
 
 // UpperFirstLetter returns the given string with the first letter in uppercase.
 func UpperFirstLetter(str string) string {
@@ -8,3 +11,13 @@ func UpperFirstLetter(str string) string {
 	r[0] = unicode.ToUpper(r[0])
 	return string(r)
 }
+
+// SplitJSONPointer returns the unescaped tokens of a JSON pointer, which are
+// separated by slashes.
+func SplitJSONPointer(pointer string) []string {
+	tokens := strings.Split(pointer, "/")
+	for i, t := range tokens {
+		tokens[i] = strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
+	}
+	return tokens
+}
-- 
2.43.0


From 00a7afd73da8f4cb4ce16a2c13e83b19c4425e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 60/60] fix: merge the messages of oneOf that are references

The payloads, headers and correlation IDs of these messages were dropped: nothing
of them was in the generated message.
---
 pkg/asyncapi/v2/message.go | 90 +++++++++++++++++---------------------
 pkg/asyncapi/v3/message.go | 84 ++++++++++++++++-------------------
 2 files changed, 79 insertions(+), 95 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 22bcb0f..27a4173 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -8,7 +8,6 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
-	"github.com/mohae/deepcopy"
 )
 
 const (
@@ -342,20 +341,24 @@ func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 		return err
 	}
 
-	// Get reference from msg2
-	if err := msg.mergeWithMessageFromReference(msg2, spec); err != nil {
-		return err
-	}
-
 	// Merge Payload
-	if err := msg.mergeWithMessagePayload(msg2, spec); err != nil {
+	payload, err := msg.mergeWithSchema(spec, msg.Payload, msg2.Follow().Payload, msg2.ReferenceTo != nil, "Payload")
+	if err != nil {
 		return err
 	}
+	msg.Payload = payload
 
 	// Merge Headers
-	if err := msg.mergeWithMessageHeaders(msg2, spec); err != nil {
+	headers, err := msg.mergeWithSchema(spec, msg.Headers, msg2.Follow().Headers, msg2.ReferenceTo != nil, "Headers")
+	if err != nil {
 		return err
 	}
+	msg.Headers = headers
+
+	// Keep the correlation ID if there is none yet
+	if msg.CorrelationID == nil {
+		msg.CorrelationID = msg2.Follow().CorrelationID
+	}
 
 	return nil
 }
@@ -369,27 +372,10 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 		}
 
 		// Remove reference
-		msg.Reference = ""
-
-		// Merge with referenced message
-		if err := msg.MergeWith(spec, *refMsg); err != nil {
-			return err
-		}
-	}
-
-	return nil
-}
-
-func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specification) error {
-	if msg2.Reference != "" {
-		// Get referenced message
-		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
-		if err != nil {
-			return err
-		}
+		msg.Reference, msg.ReferenceTo = "", nil
 
 		// Merge with referenced message
-		if err := msg2.MergeWith(spec, *refMsg2); err != nil {
+		if err := msg.MergeWith(spec, Message{ReferenceTo: refMsg}); err != nil {
 			return err
 		}
 	}
@@ -397,31 +383,37 @@ func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specificati
 	return nil
 }
 
-func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
-	if msg2.Payload != nil {
-		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
-		} else {
-			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
-				return err
-			}
+// mergeWithSchema merges a schema of another message in the one of the message, and
+// returns the result. The schemas that are defined elsewhere are not modified.
+func (msg *Message) mergeWithSchema(
+	spec Specification, own, other *Schema, shared bool, field string,
+) (*Schema, error) {
+	// Check if there is something to merge
+	if other == nil {
+		return own, nil
+	}
+
+	// Refer to the schema if it already belongs to another message
+	if shared {
+		ref := &Schema{ReferenceTo: other.Follow()}
+		ref.Validations.Merge(ref.ReferenceTo.Validations)
+		other = ref
+	}
+	if own == nil {
+		return other, nil
+	}
+
+	// Do not modify the schema of the message if it is defined elsewhere
+	if own.ReferenceTo != nil {
+		ref := own
+		own = utils.ToPointer(NewSchema())
+		own.Name = template.Namify(msg.Name + "_" + field)
+		if err := own.MergeWith(spec, *ref); err != nil {
+			return nil, err
 		}
 	}
 
-	return nil
-}
-
-func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
-	if msg2.Headers != nil {
-		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
-		} else {
-			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
-				return err
-			}
-		}
-	}
-	return nil
+	return own, own.MergeWith(spec, *other)
 }
 
 // Follow will follow the reference to the end.
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5242a7c..2447038 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
-	"github.com/mohae/deepcopy"
 )
 
 // MessageField is a structure that represents the type of a field.
@@ -413,20 +412,24 @@ func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 		return err
 	}
 
-	// Get reference from msg2
-	if err := msg.mergeWithMessageFromReference(msg2, spec); err != nil {
-		return err
-	}
-
 	// Merge Payload
-	if err := msg.mergeWithMessagePayload(msg2, spec); err != nil {
+	payload, err := msg.mergeWithSchema(spec, msg.Payload, msg2.Follow().Payload, msg2.ReferenceTo != nil, "Payload")
+	if err != nil {
 		return err
 	}
+	msg.Payload = payload
 
 	// Merge Headers
-	if err := msg.mergeWithMessageHeaders(msg2, spec); err != nil {
+	headers, err := msg.mergeWithSchema(spec, msg.Headers, msg2.Follow().Headers, msg2.ReferenceTo != nil, "Headers")
+	if err != nil {
 		return err
 	}
+	msg.Headers = headers
+
+	// Keep the correlation ID if there is none yet
+	if msg.CorrelationID == nil {
+		msg.CorrelationID = msg2.Follow().CorrelationID
+	}
 
 	return nil
 }
@@ -440,10 +443,10 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 		}
 
 		// Remove reference
-		msg.Reference = ""
+		msg.Reference, msg.ReferenceTo = "", nil
 
 		// Merge with referenced message
-		if err := msg.MergeWith(spec, *refMsg); err != nil {
+		if err := msg.MergeWith(spec, Message{ReferenceTo: refMsg}); err != nil {
 			return err
 		}
 	}
@@ -451,48 +454,37 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specification) error {
-	if msg2.Reference != "" {
-		// Get referenced message
-		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
-		if err != nil {
-			return err
-		}
-
-		// Merge with referenced message
-		if err := msg2.MergeWith(spec, *refMsg2); err != nil {
-			return err
-		}
+// mergeWithSchema merges a schema of another message in the one of the message, and
+// returns the result. The schemas that are defined elsewhere are not modified.
+func (msg *Message) mergeWithSchema(
+	spec Specification, own, other *Schema, shared bool, field string,
+) (*Schema, error) {
+	// Check if there is something to merge
+	if other == nil {
+		return own, nil
 	}
 
-	return nil
-}
-
-func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
-	if msg2.Payload != nil {
-		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
-		} else {
-			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
-				return err
-			}
-		}
+	// Refer to the schema if it already belongs to another message
+	if shared {
+		ref := &Schema{ReferenceTo: other.Follow()}
+		ref.Validations.Merge(ref.ReferenceTo.Validations)
+		other = ref
+	}
+	if own == nil {
+		return other, nil
 	}
 
-	return nil
-}
-
-func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
-	if msg2.Headers != nil {
-		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
-		} else {
-			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
-				return err
-			}
+	// Do not modify the schema of the message if it is defined elsewhere
+	if own.ReferenceTo != nil {
+		ref := own
+		own = utils.ToPointer(NewSchema())
+		own.Name = generateFullName(msg.Name, field, "", nil)
+		if err := own.MergeWith(spec, *ref); err != nil {
+			return nil, err
 		}
 	}
-	return nil
+
+	return own, own.MergeWith(spec, *other)
 }
 
 // Follow returns referenced message if specified or the actual message.
-- 
2.43.0

