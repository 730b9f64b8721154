From ded881abf34e206238089e6709606a4dc79cefbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 01/79] fix: complete the cancellation of a subscription in
 every interleaving

A cancellation could take back its own request before the broker side saw
it (no clean-up at all), and a transmission racing with the end of the
cancellation panicked on the closed messages channel or blocked forever.
---
 pkg/extensions/broker.go | 42 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..c7145cd 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -10,6 +11,19 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+	state    *subscriptionState
+}
+
+// subscriptionState is the cancellation state shared by the copies of a subscription.
+type subscriptionState struct {
+	// stopping is closed when the cancellation is requested
+	stopping chan struct{}
+	// stopped is closed when the cancellation is complete
+	stopped chan struct{}
+
+	// mutex protects the messages channel from being closed during a transmission
+	mutex  sync.RWMutex
+	closed bool
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,13 +35,28 @@ func NewBrokerChannelSubscription(
 	return BrokerChannelSubscription{
 		messages: messages,
 		cancel:   cancel,
+		state: &subscriptionState{
+			stopping: make(chan struct{}),
+			stopped:  make(chan struct{}),
+		},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. Once the subscription is cancelled, messages
+// that can't be transmitted anymore are dropped.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	bcs.state.mutex.RLock()
+	defer bcs.state.mutex.RUnlock()
+
+	if bcs.state.closed {
+		return
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.state.stopping:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -43,14 +72,21 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Wait for cancel request
 		<-bcs.cancel
 
+		// Release the transmissions that nobody will read
+		close(bcs.state.stopping)
+
 		// Execute cleanup function
 		cleanup()
 
 		// Close messages in order to avoid new messages
+		bcs.state.mutex.Lock()
+		bcs.state.closed = true
 		close(bcs.messages)
+		bcs.state.mutex.Unlock()
 
 		// Close cancel to let listeners know that the cancellation is complete
 		close(bcs.cancel)
+		close(bcs.state.stopped)
 	}()
 }
 
@@ -63,7 +99,7 @@ func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.state.stopped:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From 5c6302c4073682345524c8337849fd2fe6a173d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 02/79] fix: publish messages without headers through the
 versioning wrapper

Tagging a message that has no headers panicked on the nil map.
---
 pkg/extensions/versioning/wrapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..c2749b4 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -79,6 +79,9 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
 	// Add version to message
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
+		if mw.Headers == nil {
+			mw.Headers = make(map[string][]byte)
+		}
 		mw.Headers[w.versionHeaderKey] = []byte(version)
 	})
 
-- 
2.43.0


From 746551c8ca15d1806896ebe3eefef762144a410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 03/79] fix: release the versions when a message of an
 unregistered version is received

The listener kept the lock, which blocked the channel forever.
---
 pkg/extensions/versioning/broker_subscription.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..4630ff6 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -104,6 +104,9 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
 			if !exists {
+				// Unlock the versions
+				bs.versionsMutex.Unlock()
+
 				// Set context
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
-- 
2.43.0


From 8750820ac7e87f29719f7927afbcfb726f38e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 04/79] fix: lock channels before versions when a version is
 unsubscribed

Subscribing takes the locks in that order; unsubscribing took them in the
other one, so that both together could block each other forever.
---
 pkg/extensions/versioning/broker_subscription.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 4630ff6..fe98775 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,6 +50,10 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
+	// Lock the channels to avoid conflict, before the versions as on subscription
+	bs.parent.channelsMutex.Lock()
+	defer bs.parent.channelsMutex.Unlock()
+
 	// Lock the versions to avoid conflict
 	bs.versionsMutex.Lock()
 	defer bs.versionsMutex.Unlock()
@@ -57,10 +61,6 @@ func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *ver
 	// Remove the version from the channelsByBroker
 	delete(bs.versionsChannels, vs.version)
 
-	// Lock the channels to avoid conflict
-	bs.parent.channelsMutex.Lock()
-	defer bs.parent.channelsMutex.Unlock()
-
 	// If there is still version channels, do nothing
 	if len(bs.versionsChannels) > 0 {
 		return
-- 
2.43.0


From b58242a47809cc33b66c03bb0f74f6b76c0dc86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 05/79] fix: generate the parameters of AsyncAPI v2 channels

---
 pkg/asyncapi/v2/channel.go                    |  4 +++-
 pkg/asyncapi/v2/components.go                 |  4 +++-
 pkg/asyncapi/v2/parameter.go                  | 24 +++++++++++++++++--
 .../generators/v2/templates/parameter.tmpl    | 23 ++++++++++--------
 .../generators/v2/templates/types.tmpl        |  4 ++--
 5 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 1bdff91..580d016 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -48,7 +48,9 @@ func (c *Channel) generateMetadata(path string) error {
 
 	// Generate parameters metadata
 	for n, p := range c.Parameters {
-		p.generateMetadata(n)
+		if err := p.generateMetadata(n); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index e207b73..f6d1be0 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -31,7 +31,9 @@ func (c *Components) generateMetadata() error {
 
 	// For all parameters, generate param metadata
 	for name, param := range c.Parameters {
-		param.generateMetadata(name + "_Parameter")
+		if err := param.generateMetadata(name + "_Parameter"); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..4e47281 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
@@ -20,9 +20,16 @@ type Parameter struct {
 }
 
 // generateMetadata generate metadata for the parameter.
-func (p *Parameter) generateMetadata(name string) {
+func (p *Parameter) generateMetadata(name string) error {
 	// Add parameter name
 	p.Name = template.Namify(name)
+
+	// Generate schema metadata
+	if p.Schema != nil {
+		return p.Schema.generateMetadata(p.Name, true)
+	}
+
+	return nil
 }
 
 // setDependencies set dependencies for the parameter from specification.
@@ -36,5 +43,18 @@ func (p *Parameter) setDependencies(spec Specification) error {
 		p.ReferenceTo = refTo
 	}
 
+	// Set schema dependencies
+	if p.Schema != nil {
+		return p.Schema.setDependencies(spec)
+	}
+
 	return nil
 }
+
+// Follow returns referenced parameter if specified or the actual parameter.
+func (p *Parameter) Follow() *Parameter {
+	if p.ReferenceTo != nil {
+		return p.ReferenceTo.Follow()
+	}
+	return p
+}
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index f714ad4..119a924 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -1,16 +1,19 @@
 {{define "parameter"}}
 
-{{- if $.Description}}
-// Description: {{multiLineComment $.Description}}
-{{- end}}
+{{- /* Use the referenced parameter if there is one */}}
+{{- $param := .Follow}}
 
-{{- /* Set parameter if defined */}}
-{{- if .Schema}}
-{{namify $.Name }} {{template "schema-name" $.Schema}}
+{{- if $param.Description}}
+// Description: {{multiLineComment $param.Description}}
+{{- end}}
 
-{{- /* Set parameter from reference if defined */}}
-{{- else if .ReferenceTo }}
-{{- template "parameter" $.ReferenceTo}}
-{{end -}}
+{{- /* Set parameter type from its schema, if this is not a simple string */}}
+{{- $type := ""}}
+{{- if $param.Schema}}{{$type = $param.Schema.Follow.Type}}{{end}}
+{{- if or (eq $type "integer") (eq $type "number") (eq $type "boolean")}}
+{{namify .Name}} {{template "schema-name" $param.Schema.Follow}}
+{{- else}}
+{{namify .Name}} string
+{{- end}}
 
 {{- end}}
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..c4ac5bd 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -59,8 +59,8 @@ func (e *Error) Error() string {
 {{range $key, $value := .Channels -}}
 
 {{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
+// {{ namifyWithoutParam $key }}Parameters represents {{ namify .Name }} channel parameters
+type {{ namifyWithoutParam $key }}Parameters struct {
 {{- range $key, $value := .Parameters}}
     {{- template "parameter" $value}}
 {{- end}}
-- 
2.43.0


From 50969550da085f11b296400f7d36ba040811ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 06/79] fix: report a recovered panic as an error of the
 operation

---
 pkg/extensions/middlewares/recovery.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/middlewares/recovery.go b/pkg/extensions/middlewares/recovery.go
index b5e7782..c5bd409 100644
--- a/pkg/extensions/middlewares/recovery.go
+++ b/pkg/extensions/middlewares/recovery.go
@@ -8,13 +8,15 @@ import (
 )
 
 // Recovery is a middleware that recovers from panic in middlewares coming after
-// it and user code from subscription.
+// it and user code from subscription. The panic is logged and given as an error, so
+// that the operation is not considered as successful.
 func Recovery(logger extensions.Logger) extensions.Middleware {
-	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
+	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) (err error) {
 		// Recover in case of panic
 		defer func() {
 			if r := recover(); r != nil {
 				logger.Error(ctx, fmt.Sprintf("Recovered from panic: %v", r))
+				err = fmt.Errorf("%w: recovered from panic: %v", extensions.ErrAsyncAPI, r)
 			}
 		}()
 
-- 
2.43.0


From 8e5caaf69e3ff3e3ca2b2a0028693fd143cad6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 07/79] fix: stop waiting for a reply when the context or the
 subscription is over

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 5 +++++
 pkg/codegen/generators/v3/templates/controller.tmpl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..2e575b7 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -367,6 +367,11 @@ func (c *UserController) WaitFor{{operationName $value}}(
             c.logger.Error(ctx, err.Error())
         }
 
+        // Stop waiting if there is nothing to wait for anymore
+        if errors.Is(err, extensions.ErrContextCanceled) || errors.Is(err, extensions.ErrSubscriptionCanceled) {
+            return {{(channelToMessage $value "subscribe").Name}}{}, err
+        }
+
         // Continue if the message hasn't been received
         if msg == nil {
             continue
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..e1ff2f3 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -446,6 +446,11 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
             c.logger.Error(ctx, err.Error())
         }
 
+        // Stop waiting if there is nothing to wait for anymore
+        if errors.Is(err, extensions.ErrContextCanceled) || errors.Is(err, extensions.ErrSubscriptionCanceled) {
+            return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        }
+
         // Continue if the message hasn't been received
         if msg == nil {
             continue
-- 
2.43.0


From 6e4c1386344e2a3d59d6954c3be923af626f6291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 08/79] fix: acknowledge the replies received without
 correlation identifier

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index e1ff2f3..21ecfc6 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -504,6 +504,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         {{- else}}
         // There is correlation no ID, so it will automatically return at
         // the first received message.
+        acknowledgeableBrokerMessage.Ack()
         {{- end}}
 
         // Set context with received values as it is the expected message
-- 
2.43.0


From 2351258567de80e31b486c51ed30fca8430e768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 09/79] fix: end the subscriptions of channels with parameters
 on unsubscribe-all and close

---
 .../generators/v2/templates/controller.tmpl     | 17 ++++++++++++-----
 .../generators/v3/templates/controller.tmpl     | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 2e575b7..2f49e7d 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -122,11 +122,18 @@ func (c *{{ .Prefix }}Controller) SubscribeAll(ctx context.Context, as {{ .Prefi
 
 // UnsubscribeAll will unsubscribe all remaining subscribed channels
 func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
-    {{- range  $key, $value := .SubscribeChannels}}
-    {{- if not .Parameters}}
-    c.Unsubscribe{{operationName $value}}(ctx)
-    {{- end}}
-    {{- end}}
+    for addr, sub := range c.subscriptions {
+        // Set context
+        ctx := add{{ .Prefix }}ContextValues(ctx, addr)
+
+        // Stop the subscription
+        sub.Cancel(ctx)
+
+        // Remove it from the subscriptions
+        delete(c.subscriptions, addr)
+
+        c.logger.Info(ctx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 21ecfc6..6c2b5df 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -123,11 +123,18 @@ func (c *{{ .Prefix }}Controller) SubscribeToAllChannels(ctx context.Context, as
 
 // UnsubscribeFromAllChannels will stop the subscription of all remaining subscribed channels
 func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context) {
-    {{- range  $key, $value := .Operations.Receive}}
-    {{- if not .Channel.Follow.Parameters}}
-    c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
-    {{- end}}
-    {{- end}}
+    for addr, sub := range c.subscriptions {
+        // Set context
+        ctx := add{{ .Prefix }}ContextValues(ctx, addr)
+
+        // Stop the subscription
+        sub.Cancel(ctx)
+
+        // Remove it from the subscriptions
+        delete(c.subscriptions, addr)
+
+        c.logger.Info(ctx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
-- 
2.43.0


From 7ad7029eb11e21ff57ee795eddf3e0e72e5daf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 10/79] fix: allow a subscription to be cancelled more than
 once

---
 pkg/extensions/broker.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index c7145cd..6db876d 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -16,6 +17,8 @@ type BrokerChannelSubscription struct {
 
 // subscriptionState is the cancellation state shared by the copies of a subscription.
 type subscriptionState struct {
+	// requested is set by the first cancellation
+	requested atomic.Bool
 	// stopping is closed when the cancellation is requested
 	stopping chan struct{}
 	// stopped is closed when the cancellation is complete
@@ -92,10 +95,13 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 
 // Cancel cancels the subscription from user perspective. It will ask for clean
 // up on broker, which will return when finished to avoid dangling resources, such
-// as non-existent queue listeners on (broker) server side.
+// as non-existent queue listeners on (broker) server side. Cancelling again a
+// subscription only waits for the end of its cancellation.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
-	// Send a cancellation request
-	bcs.cancel <- true
+	// Send a cancellation request, if this is the first one
+	if bcs.state.requested.CompareAndSwap(false, true) {
+		bcs.cancel <- true
+	}
 
 	// Wait for the cancellation to be effective
 	select {
-- 
2.43.0


From 04b1e1872cc089c94756d4167e603694744c3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 11/79] fix: refuse empty reply addresses

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 6c2b5df..48f28b8 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -279,6 +279,9 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
             }
             chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- end }}
+        if chanAddr == "" {
+            return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+        }
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
     {{- else }}
@@ -407,6 +410,9 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
             }
             addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- end }}
+        if addr == "" {
+            return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+        }
     {{- else }}
         addr := {{ generateChannelAddr .Reply.Channel }}
     {{- end }}
-- 
2.43.0


From fb8bf33d9137a9fabaaf23d789161bbd01b98173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 12/79] fix: synchronise the JetStream subscriptions

---
 .../brokers/natsjetstream/natsjetstream.go    | 115 ++++++++++++++----
 1 file changed, 92 insertions(+), 23 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..31e144e 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -26,11 +27,22 @@ type Controller struct {
 	streamName     string
 	consumerName   string
 	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
+	channels       map[string]*channelQueue
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
 	nakDelay time.Duration
+
+	// mutex protects the channels and the consume context
+	mutex sync.Mutex
+}
+
+// channelQueue holds the messages of a channel until one of its subscriptions takes them.
+type channelQueue struct {
+	messages chan jetstream.Msg
+	// done is closed when there is no more subscription to the channel
+	done          chan struct{}
+	subscriptions int
 }
 
 // NewController creates a new NATS JetStream controller.
@@ -39,7 +51,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*channelQueue),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -230,33 +242,68 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
-	}
+	queue := c.joinChannel(channel)
 	if err := c.ConsumeIfNeeded(ctx); err != nil {
+		c.leaveChannel(channel, queue)
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	stop := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case message := <-queue.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			case <-stop:
+				return
+			}
 		}
 	}()
 
-	// Wait for cancellation and drain the NATS subscription
+	// Wait for cancellation and stop consuming if there is no other subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
+		close(stop)
+		c.leaveChannel(channel, queue)
 		c.StopConsumeIfNeeded()
 	})
 
 	return sub, nil
 }
 
+// joinChannel adds a subscription to a channel.
+func (c *Controller) joinChannel(channel string) *channelQueue {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	queue, exists := c.channels[channel]
+	if !exists {
+		queue = &channelQueue{
+			messages: make(chan jetstream.Msg),
+			done:     make(chan struct{}),
+		}
+		c.channels[channel] = queue
+	}
+	queue.subscriptions++
+
+	return queue
+}
+
+// leaveChannel removes a subscription from a channel.
+func (c *Controller) leaveChannel(channel string, queue *channelQueue) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	queue.subscriptions--
+	if queue.subscriptions == 0 {
+		close(queue.done)
+		delete(c.channels, channel)
+	}
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -296,6 +343,9 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -313,6 +363,9 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -324,14 +377,8 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
-			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
-				break
-			}
-		}
-		if responsibleSubscription == "" {
+		responsibleQueue := c.responsibleQueue(msgSubj)
+		if responsibleQueue == nil {
 			c.logger.Warning(
 				ctx,
 				fmt.Sprintf(
@@ -346,10 +393,32 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 
 			return
 		}
-		c.channels[responsibleSubscription] <- msg
+
+		select {
+		case responsibleQueue.messages <- msg:
+		case <-responsibleQueue.done:
+			// Unsubscribed in the meantime: let the stream deliver the message again
+			if err := msg.NakWithDelay(c.nakDelay); err != nil {
+				c.logger.Error(ctx, fmt.Sprintf("error on nak message: %q", err.Error()))
+			}
+		}
 	}
 }
 
+// responsibleQueue returns the queue of the channel matching the subject, if there is one.
+func (c *Controller) responsibleQueue(subject string) *channelQueue {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	for subjectSubscriptionPattern, queue := range c.channels {
+		if MatchSubjectSubscription(subjectSubscriptionPattern, subject) {
+			return queue
+		}
+	}
+
+	return nil
+}
+
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
 func MatchSubjectSubscription(pattern string, subject string) bool {
 	if pattern == "" || subject == "" {
-- 
2.43.0


From 43eeaf26f5a5a3fdb103b20fe5444b54ef8c1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 13/79] fix: do not set the Kafka security options on the
 default dialer of the library

---
 pkg/extensions/brokers/kafka/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..3af7d24 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -46,12 +46,15 @@ type ControllerOption func(controller *Controller)
 
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
+	// Copy the default dialer: the options must not change the one of the library
+	dialer := *kafka.DefaultDialer
+
 	// Create default controller
 	controller := &Controller{
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         &dialer,
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From 8b47c29788fb1d4ea53628f1677c454688929fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 14/79] fix: close the Kafka test connection when listing the
 brokers fails

---
 pkg/extensions/brokers/kafka/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 3af7d24..485fa41 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -75,11 +75,12 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
 
+		defer conn.Close()
+
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
-- 
2.43.0


From edfce5befc465200cdca2a5b6ecadaedf9195761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 15/79] fix: return an error instead of panicking on an invalid
 Kafka reader configuration

---
 pkg/extensions/brokers/kafka/kafka.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 485fa41..04d91e3 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -205,14 +205,18 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 	}
 
 	// Create reader
-	r := kafka.NewReader(kafka.ReaderConfig{
+	config := kafka.ReaderConfig{
 		Brokers:   c.hosts,
 		Topic:     channel,
 		Partition: c.partition,
 		MaxBytes:  c.maxBytes,
 		GroupID:   c.groupID,
 		Dialer:    c.dialer,
-	})
+	}
+	if err := config.Validate(); err != nil {
+		return extensions.BrokerChannelSubscription{}, err
+	}
+	r := kafka.NewReader(config)
 
 	// Create subscription
 	sub := extensions.NewBrokerChannelSubscription(
-- 
2.43.0


From 0bcff624ca695119866cc750c3855fc5f29f7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 16/79] fix: stop waiting for the creation of a Kafka topic
 when the context is done

---
 pkg/extensions/brokers/kafka/kafka.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 04d91e3..1d5640b 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -277,6 +277,11 @@ func (c *Controller) checkTopicExistOrCreateIt(ctx context.Context, topic string
 			}
 		}
 
+		// Stop waiting for the topic if the caller does
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		c.logger.Warning(ctx, fmt.Sprintf("Topic %s doesn't exists yet, retrying (#%d)", topic, i))
 	}
 }
-- 
2.43.0


From c2abb2d4d4651a44f7031b5f91b83b31d90ccdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 17/79] fix: do not write in the caller's fields when logging

---
 pkg/extensions/loggers/ecs.go  | 5 +++--
 pkg/extensions/loggers/text.go | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/loggers/ecs.go b/pkg/extensions/loggers/ecs.go
index 8450f46..a3e6d0e 100644
--- a/pkg/extensions/loggers/ecs.go
+++ b/pkg/extensions/loggers/ecs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"slices"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -74,8 +75,8 @@ func (ecs ECS) formatLog(ctx context.Context, msg string, info ...extensions.Log
 }
 
 func (ecs ECS) logWithLevel(ctx context.Context, level string, msg string, info ...extensions.LogInfo) {
-	// Add additional keys
-	info = append(info, extensions.LogInfo{Key: "log.level", Value: level})
+	// Add additional keys, without writing in the caller's slice
+	info = append(slices.Clip(info), extensions.LogInfo{Key: "log.level", Value: level})
 
 	// Print log
 	fmt.Println(ecs.formatLog(ctx, msg, info...))
diff --git a/pkg/extensions/loggers/text.go b/pkg/extensions/loggers/text.go
index cde8e9f..2206afe 100644
--- a/pkg/extensions/loggers/text.go
+++ b/pkg/extensions/loggers/text.go
@@ -3,6 +3,7 @@ package loggers
 import (
 	"context"
 	"fmt"
+	"slices"
 	"strings"
 	"time"
 
@@ -68,6 +69,9 @@ func (tl Text) humanizeStructuredLogs(sl map[string]any, msgFmt *color.Color, pr
 }
 
 func (tl Text) setInfoFromContext(ctx context.Context, msg string, info ...extensions.LogInfo) []extensions.LogInfo {
+	// Do not write in the caller's slice
+	info = slices.Clip(info)
+
 	// Add additional keys from context
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsChannel, func(value any) {
 		info = append(info, extensions.LogInfo{Key: "Channel", Value: value})
-- 
2.43.0


From 77755451a73dfe958142b88aa3b7df349668dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 18/79] fix: do not repeat letters in names with multi-byte
 characters

---
 pkg/utils/template/helpers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..b87e9d2 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -47,12 +47,16 @@ func DefaultNamifier(sentence string) string {
 
 	// Upper letters that are preceded with an underscore
 	previous := '_'
-	for i, r := range sentence {
+	var uppered strings.Builder
+	for _, r := range sentence {
 		if !unicode.IsLetter(previous) && !unicode.IsDigit(previous) {
-			sentence = sentence[:i] + strings.ToUpper(string(r)) + sentence[i+1:]
+			uppered.WriteString(strings.ToUpper(string(r)))
+		} else {
+			uppered.WriteRune(r)
 		}
 		previous = r
 	}
+	sentence = uppered.String()
 
 	// Remove everything except alphanumerics
 	re := regexp.MustCompile("[^a-zA-Z0-9]")
-- 
2.43.0


From 49619b8e9635465e725ab67512574b98aee60913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 19/79] fix: keep what is between the parameters of an address
 in its name

---
 pkg/utils/template/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b87e9d2..fbb565f 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -32,7 +32,7 @@ var namify = namifyPerScheme["none"]
 // and will remove all parameters that can appear between '{' and '}'.
 func NamifyWithoutParams(sentence string) string {
 	// Remove parameters
-	re := regexp.MustCompile("{[^()]*}")
+	re := regexp.MustCompile("{[^{}]*}")
 	sentence = string(re.ReplaceAll([]byte(sentence), []byte("_")))
 
 	return namify(sentence)
-- 
2.43.0


From 5dc0b274296031090c03d5ed6776bda5ed95fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 20/79] fix: give exported identifiers in the camel naming
 scheme

---
 pkg/utils/template/helpers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index fbb565f..58268aa 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -21,7 +21,7 @@ var convertKeyFuncs = map[string]namingSchemeFn{
 }
 
 var namifyPerScheme = map[string]namingSchemeFn{
-	"camel": strcase.ToCamel,
+	"camel": CamelNamifier,
 	"none":  DefaultNamifier,
 }
 
@@ -75,6 +75,13 @@ func DefaultNamifier(sentence string) string {
 	return sentence
 }
 
+// CamelNamifier will convert a sentence to a golang conventional type name in
+// camel case.
+func CamelNamifier(sentence string) string {
+	// Ensure the result is a valid exported identifier
+	return DefaultNamifier(strcase.ToCamel(sentence))
+}
+
 // ConvertKey is used in template to convert schema property key name
 // according to chosen strategy.
 func ConvertKey(sentence string) string {
-- 
2.43.0


From 556128afb2bb5d7ba67e9f001a6c394a4cea3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 21/79] fix: do not keep the options of a generation for the
 next ones

---
 pkg/codegen/codegen.go                         | 6 ++++++
 pkg/codegen/generators/v2/templates/helpers.go | 9 ++++++++-
 pkg/codegen/generators/v3/templates/helpers.go | 9 ++++++++-
 pkg/utils/template/helpers.go                  | 9 ++++++++-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..22e3f8d 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -90,12 +90,18 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
+	// Set everything that may have been changed by a previous generation
 	if opt.IgnoreStringFormat {
 		template.DisableDateOrTimeGeneration()
+	} else {
+		template.EnableDateOrTimeGeneration()
 	}
 	if opt.ForcePointers {
 		templatesv2.ForcePointerOnFields()
 		templatesv3.ForcePointerOnFields()
+	} else {
+		templatesv2.ResetPointerOnFields()
+		templatesv3.ResetPointerOnFields()
 	}
 
 	// Process Specification
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..b0db257 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -141,10 +141,12 @@ func OperationName(channel asyncapi.Channel) string {
 	return templateutil.Namify(name)
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+func isFieldPointerByDefault(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+var isFieldPointer = isFieldPointerByDefault
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
@@ -152,6 +154,11 @@ func ForcePointerOnFields() {
 	}
 }
 
+// ResetPointerOnFields is used to generate (back) only the optional fields as pointers, except for arrays.
+func ResetPointerOnFields() {
+	isFieldPointer = isFieldPointerByDefault
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..dcd447d 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -127,10 +127,12 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return sprint[:len(sprint)-1] + ")"
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+func isFieldPointerByDefault(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
 	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
 }
 
+var isFieldPointer = isFieldPointerByDefault
+
 // ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
 func ForcePointerOnFields() {
 	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
@@ -138,6 +140,11 @@ func ForcePointerOnFields() {
 	}
 }
 
+// ResetPointerOnFields is used to generate (back) only the optional fields as pointers, except for arrays.
+func ResetPointerOnFields() {
+	isFieldPointer = isFieldPointerByDefault
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 58268aa..5b8c002 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -155,15 +155,22 @@ func CutSuffix(s, suffix string) string {
 	return s
 }
 
-var isDateOrDateTimeGenerated = func(format string) bool {
+func isDateOrDateTime(format string) bool {
 	return format == "date" || format == "date-time"
 }
 
+var isDateOrDateTimeGenerated = isDateOrDateTime
+
 // DisableDateOrTimeGeneration is used to disable the generation of date/date-time formats within types.
 func DisableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = func(_ string) bool { return false }
 }
 
+// EnableDateOrTimeGeneration is used to enable (back) the generation of date/date-time formats within types.
+func EnableDateOrTimeGeneration() {
+	isDateOrDateTimeGenerated = isDateOrDateTime
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
-- 
2.43.0


From 671c1f873dd2f4700304713f60cd9a0ac0bb4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 22/79] fix: do not panic on reply addresses of the components
 or operations without channel

---
 pkg/asyncapi/v3/components.go              |  4 ++--
 pkg/asyncapi/v3/operation.go               | 16 ++++++++++++++++
 pkg/asyncapi/v3/operation_reply_address.go |  3 ++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 1c8ba41..b753307 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -84,14 +84,14 @@ func (c *Components) setDependencies(spec Specification) error {
 
 	// Set reply operations dependencies
 	for _, reply := range c.Replies {
-		if err := reply.setDependencies(&Operation{}, spec); err != nil {
+		if err := reply.setDependencies(nil, spec); err != nil {
 			return err
 		}
 	}
 
 	// Set reply addresses dependencies
 	for _, repAddr := range c.ReplyAddresses {
-		if err := repAddr.setDependencies(&Operation{}, spec); err != nil {
+		if err := repAddr.setDependencies(nil, spec); err != nil {
 			return err
 		}
 	}
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8f95f64..0a80943 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,5 +1,16 @@
 package asyncapiv3
 
+import (
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+)
+
+var (
+	// ErrNoChannelInOperation is the error returned when there is no channel in an operation.
+	ErrNoChannelInOperation = fmt.Errorf("%w: no channel in operation", extensions.ErrAsyncAPI)
+)
+
 // OperationAction represents an OperationAction.
 type OperationAction string
 
@@ -188,6 +199,11 @@ func (op Operation) GetMessage() (*Message, error) {
 		return op.Messages[0], nil // TODO: change
 	}
 
+	// Check that there is a channel
+	if op.Channel == nil {
+		return nil, fmt.Errorf("%w: operation %q", ErrNoChannelInOperation, op.Name)
+	}
+
 	return op.Channel.GetMessage()
 }
 
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 9152f4b..8f7fc1e 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -59,7 +59,8 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 }
 
 func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error) {
-	if ora.Location == "" {
+	// There is no message to look into if this is not the address of an operation
+	if ora.Location == "" || op == nil {
 		return false, nil
 	}
 
-- 
2.43.0


From 722570c6dcf5e0b62408aaf9dff10cae4b7b6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 23/79] fix: refuse null elements in specifications instead of
 panicking

---
 pkg/asyncapi/parser/parse.go | 48 ++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pkg/asyncapi/parser/parse.go b/pkg/asyncapi/parser/parse.go
index 2bda5e9..3126512 100644
--- a/pkg/asyncapi/parser/parse.go
+++ b/pkg/asyncapi/parser/parse.go
@@ -21,6 +21,9 @@ var (
 
 	// ErrInvalidVersion is returned when the version is either unsupported or invalid.
 	ErrInvalidVersion = fmt.Errorf("%w: unsupported/invalid version", extensions.ErrAsyncAPI)
+
+	// ErrInvalidContent is returned when the content of the specification is invalid.
+	ErrInvalidContent = fmt.Errorf("%w: invalid content", extensions.ErrAsyncAPI)
 )
 
 // FromFileParams are the parameters to parse an AsyncAPI specification from a file.
@@ -136,9 +139,54 @@ func FromJSON(params FromJSONParams) (asyncapi.Specification, error) {
 		return nil, err
 	}
 
+	// Check that no element is missing
+	if err := checkNullElements(reflect.ValueOf(spec), "#"); err != nil {
+		return nil, err
+	}
+
 	return spec, nil
 }
 
+// checkNullElements returns an error if an element of a map or an array of the
+// specification is null.
+func checkNullElements(v reflect.Value, path string) error {
+	switch v.Kind() {
+	case reflect.Pointer:
+		return checkNullElements(v.Elem(), path)
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			if f := v.Type().Field(i); f.IsExported() {
+				if err := checkNullElements(v.Field(i), path+"/"+f.Name); err != nil {
+					return err
+				}
+			}
+		}
+	case reflect.Map:
+		for iter := v.MapRange(); iter.Next(); {
+			if err := checkNullElement(iter.Value(), fmt.Sprintf("%s/%v", path, iter.Key())); err != nil {
+				return err
+			}
+		}
+	case reflect.Slice:
+		for i := 0; i < v.Len(); i++ {
+			if err := checkNullElement(v.Index(i), fmt.Sprintf("%s/%d", path, i)); err != nil {
+				return err
+			}
+		}
+	default:
+	}
+
+	return nil
+}
+
+func checkNullElement(v reflect.Value, path string) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		return fmt.Errorf("%w: %q is null", ErrInvalidContent, path)
+	}
+
+	return checkNullElements(v, path)
+}
+
 func versionFromJSON(data []byte) (string, error) {
 	var m map[string]any
 
-- 
2.43.0


From a288d112c7bbf89b00f5a78e144478e0277a5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 24/79] fix: do not panic on replies without channel or short
 message references

---
 pkg/asyncapi/v2/operation.go |  4 +++-
 pkg/asyncapi/v3/operation.go | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index be5a925..766e8c6 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -27,7 +27,9 @@ func (op *Operation) generateMetadata(name string) error {
 	// Get message name
 	var msgName string
 	if op.Message.Reference != "" {
-		msgName = strings.Split(op.Message.Reference, "/")[3]
+		// NOTE: this is the name of the message, if the reference is correct
+		refPath := strings.Split(op.Message.Reference, "/")
+		msgName = refPath[min(len(refPath)-1, 3)]
 	} else {
 		msgName = op.Name
 	}
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 0a80943..8dc4da5 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -146,9 +146,7 @@ func (op *Operation) setDependencies(spec Specification) error {
 	}
 
 	// Generate reply
-	op.generateReply()
-
-	return nil
+	return op.generateReply()
 }
 
 func (op *Operation) setReference(spec Specification) error {
@@ -178,10 +176,15 @@ func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	return nil
 }
 
-func (op *Operation) generateReply() {
+func (op *Operation) generateReply() error {
 	// Return if there is no reply
 	if op == nil || op.Reply == nil {
-		return
+		return nil
+	}
+
+	// Check that there is a channel
+	if op.Reply.Channel == nil {
+		return fmt.Errorf("%w: reply of operation %q", ErrNoChannelInOperation, op.Name)
 	}
 
 	// Generate reply
@@ -191,6 +194,8 @@ func (op *Operation) generateReply() {
 		Channel: ch,
 		ReplyOf: op,
 	}
+
+	return nil
 }
 
 // GetMessage will return the operation message.
-- 
2.43.0


From 4b124ffa56866a0be29792bc6f1b98169afb81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 25/79] fix: resolve references chains and nested paths, refuse
 incorrect references instead of panicking

---
 pkg/asyncapi/reference.go        |  23 ++++++
 pkg/asyncapi/v2/message.go       |   7 +-
 pkg/asyncapi/v2/schema.go        |  47 ++++++++++-
 pkg/asyncapi/v2/specification.go |  83 +++++++++++++------
 pkg/asyncapi/v3/message.go       |   7 +-
 pkg/asyncapi/v3/schema.go        |  55 ++++++++++++-
 pkg/asyncapi/v3/specification.go | 132 +++++++++++++++++++++----------
 7 files changed, 280 insertions(+), 74 deletions(-)
 create mode 100644 pkg/asyncapi/reference.go

diff --git a/pkg/asyncapi/reference.go b/pkg/asyncapi/reference.go
new file mode 100644
index 0000000..c50158f
--- /dev/null
+++ b/pkg/asyncapi/reference.go
@@ -0,0 +1,23 @@
+package asyncapi
+
+import (
+	"net/url"
+	"strings"
+)
+
+// SplitReferencePath splits the path of a reference (i.e. what is after the '#')
+// into its elements. Elements are unescaped, as the path is a JSON pointer.
+func SplitReferencePath(path string) ([]string, error) {
+	path, err := url.PathUnescape(path)
+	if err != nil {
+		return nil, err
+	}
+
+	elements := strings.Split(strings.TrimPrefix(path, "/"), "/")
+	for i, e := range elements {
+		e = strings.ReplaceAll(e, "~1", "/")
+		elements[i] = strings.ReplaceAll(e, "~0", "~")
+	}
+
+	return elements, nil
+}
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..c282c4a 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -304,14 +304,15 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if msg == nil || len(ref) == 0 {
 		return msg
 	}
 
 	var next *Schema
-	if ref[0] == "payload" {
+	switch ref[0] {
+	case "payload":
 		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
+	case "headers", MessageFieldIsHeader.String():
 		next = msg.Headers
 	}
 
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..6a51979 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv2
 
 import (
+	"strconv"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -305,12 +307,53 @@ func (s Schema) IsFieldRequired(field string) bool {
 	return utils.IsInSlice(s.Required, field)
 }
 
+// referenceFrom returns the schema at the given path inside the schema, or nil
+// if there is none. Properties can be given directly by their names.
+//
+//nolint:cyclop // Not necessary to reduce statements and cyclop
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
-	return s.Properties[ref[0]].referenceFrom(ref[1:])
+	// Get the property if there is one with this name
+	if p, exists := s.Properties[ref[0]]; exists {
+		return p.referenceFrom(ref[1:])
+	}
+
+	switch ref[0] {
+	case "items":
+		return s.Items.referenceFrom(ref[1:])
+	case "additionalProperties":
+		return s.AdditionalProperties.referenceFrom(ref[1:])
+	}
+
+	if len(ref) < 2 {
+		return nil
+	}
+
+	switch ref[0] {
+	case "properties":
+		return s.Properties[ref[1]].referenceFrom(ref[2:])
+	case "allOf":
+		return schemaAt(s.AllOf, ref[1]).referenceFrom(ref[2:])
+	case "anyOf":
+		return schemaAt(s.AnyOf, ref[1]).referenceFrom(ref[2:])
+	case "oneOf":
+		return schemaAt(s.OneOf, ref[1]).referenceFrom(ref[2:])
+	default:
+		return nil
+	}
+}
+
+// schemaAt returns the schema at the given index, or nil if there is none.
+func schemaAt(schemas []*Schema, index string) *Schema {
+	i, err := strconv.Atoi(index)
+	if err != nil || i < 0 || i >= len(schemas) {
+		return nil
+	}
+
+	return schemas[i]
 }
 
 // MergeWith merges the given Schema structure with another one
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..16a8d20 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -224,33 +224,72 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 	return s2, ref, nil
 }
 
+// reference returns the object corresponding to the given reference, following
+// the references until the final object if it is itself a reference.
 func (s Specification) reference(ref string) (any, error) {
-	// Separate file from path
-	usedSpec, ref, err := s.getDependencyBasedOnRef(ref)
-	if err != nil {
-		return nil, err
+	spec := &s
+	visited := make(map[any]struct{})
+
+	for next := ref; ; {
+		// Get the object from the specification where it is
+		usedSpec, path, err := spec.getDependencyBasedOnRef(next)
+		if err != nil {
+			return nil, err
+		}
+		obj, err := usedSpec.referenceFromPath(next, path)
+		if err != nil {
+			return nil, err
+		}
+
+		// Check that this is not a loop
+		if _, exists := visited[obj]; exists {
+			return nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
+		}
+		visited[obj] = struct{}{}
+
+		// Stop if this is not a reference to another object
+		spec, next = usedSpec, referenceOf(obj)
+		if next == "" {
+			return obj, nil
+		}
+	}
+}
+
+// referenceOf returns the reference held by an object, if it is a reference.
+func referenceOf(obj any) string {
+	v := reflect.ValueOf(obj)
+	if v.Kind() != reflect.Pointer || v.IsNil() {
+		return ""
 	}
 
+	if field := v.Elem().FieldByName("Reference"); field.IsValid() {
+		return field.String()
+	}
+	return ""
+}
+
+func (s Specification) referenceFromPath(ref, path string) (any, error) {
 	// Separate each part of the reference
-	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
-
-	switch refPath[0] {
-	case "components":
-		switch refPath[1] {
-		case "messages":
-			msg := usedSpec.Components.Messages[refPath[2]]
-			return msg.referenceFrom(refPath[3:]), nil
-		case "schemas":
-			schema := usedSpec.Components.Schemas[refPath[2]]
-			return schema.referenceFrom(refPath[3:]), nil
-		case "parameters":
-			return usedSpec.Components.Parameters[refPath[2]], nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
-		}
+	refPath, err := asyncapi.SplitReferencePath(path)
+	if err != nil {
+		return nil, fmt.Errorf("%w: %q: %w", ErrInvalidReference, ref, err)
+	}
+
+	// Only the objects of the components can be referenced
+	if len(refPath) < 3 || refPath[0] != "components" {
+		return nil, fmt.Errorf("%w: %q is not supported", ErrInvalidReference, ref)
+	}
+	name, subPath := refPath[2], refPath[3:]
+
+	switch {
+	case refPath[1] == "messages":
+		return s.Components.Messages[name].referenceFrom(subPath), nil
+	case refPath[1] == "schemas":
+		return s.Components.Schemas[name].referenceFrom(subPath), nil
+	case refPath[1] == "parameters" && len(subPath) == 0:
+		return s.Components.Parameters[name], nil
 	default:
-		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 	}
 }
 
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..a10522d 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -383,14 +383,15 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if msg == nil || len(ref) == 0 {
 		return msg
 	}
 
 	var next *Schema
-	if ref[0] == "payload" {
+	switch ref[0] {
+	case "payload":
 		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
+	case "headers", MessageFieldIsHeader.String():
 		next = msg.Headers
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..3b8209f 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"strconv"
+
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -308,12 +310,61 @@ func (s Schema) IsFieldRequired(field string) bool {
 	return utils.IsInSlice(s.Required, field)
 }
 
+// referenceFrom returns the schema at the given path inside the schema, or nil
+// if there is none. Properties can be given directly by their names.
+//
+//nolint:cyclop // Not necessary to reduce statements and cyclop
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if s == nil || len(ref) == 0 {
 		return s
 	}
 
-	return s.Properties[ref[0]].referenceFrom(ref[1:])
+	// Get the property if there is one with this name
+	if p, exists := s.Properties[ref[0]]; exists {
+		return p.referenceFrom(ref[1:])
+	}
+
+	switch ref[0] {
+	case "items":
+		return s.Items.referenceFrom(ref[1:])
+	case "additionalProperties":
+		return s.AdditionalProperties.referenceFrom(ref[1:])
+	case "not":
+		return s.Not.referenceFrom(ref[1:])
+	}
+
+	if len(ref) < 2 {
+		return nil
+	}
+
+	switch ref[0] {
+	case "properties":
+		return s.Properties[ref[1]].referenceFrom(ref[2:])
+	case "patternProperties":
+		return s.PatternProperties[ref[1]].referenceFrom(ref[2:])
+	case "contains":
+		return schemaAt(s.Contains, ref[1]).referenceFrom(ref[2:])
+	case "additionalItems":
+		return schemaAt(s.AdditionalItems, ref[1]).referenceFrom(ref[2:])
+	case "allOf":
+		return schemaAt(s.AllOf, ref[1]).referenceFrom(ref[2:])
+	case "anyOf":
+		return schemaAt(s.AnyOf, ref[1]).referenceFrom(ref[2:])
+	case "oneOf":
+		return schemaAt(s.OneOf, ref[1]).referenceFrom(ref[2:])
+	default:
+		return nil
+	}
+}
+
+// schemaAt returns the schema at the given index, or nil if there is none.
+func schemaAt(schemas []*Schema, index string) *Schema {
+	i, err := strconv.Atoi(index)
+	if err != nil || i < 0 || i >= len(schemas) {
+		return nil
+	}
+
+	return schemas[i]
 }
 
 // MergeWith merges the given Schema structure with another one
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..6306946 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -677,77 +677,125 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 	return s2, ref, nil
 }
 
-//nolint:funlen,cyclop // Not necessary to reduce statements and cyclop
+// reference returns the object corresponding to the given reference, following
+// the references until the final object if it is itself a reference.
 func (s Specification) reference(ref string) (any, error) {
-	// Separate file from path
-	usedSpec, ref, err := s.getDependencyBasedOnRef(ref)
-	if err != nil {
-		return nil, err
+	spec := &s
+	visited := make(map[any]struct{})
+
+	for next := ref; ; {
+		// Get the object from the specification where it is
+		usedSpec, path, err := spec.getDependencyBasedOnRef(next)
+		if err != nil {
+			return nil, err
+		}
+		obj, err := usedSpec.referenceFromPath(next, path)
+		if err != nil {
+			return nil, err
+		}
+
+		// Check that this is not a loop
+		if _, exists := visited[obj]; exists {
+			return nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
+		}
+		visited[obj] = struct{}{}
+
+		// Stop if this is not a reference to another object
+		spec, next = usedSpec, referenceOf(obj)
+		if next == "" {
+			return obj, nil
+		}
 	}
+}
 
+// referenceOf returns the reference held by an object, if it is a reference.
+func referenceOf(obj any) string {
+	v := reflect.ValueOf(obj)
+	if v.Kind() != reflect.Pointer || v.IsNil() {
+		return ""
+	}
+
+	if field := v.Elem().FieldByName("Reference"); field.IsValid() {
+		return field.String()
+	}
+	return ""
+}
+
+//nolint:funlen,cyclop // Not necessary to reduce statements and cyclop
+func (s Specification) referenceFromPath(ref, path string) (any, error) {
 	// Separate each part of the reference
-	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
+	refPath, err := asyncapi.SplitReferencePath(path)
+	if err != nil {
+		return nil, fmt.Errorf("%w: %q: %w", ErrInvalidReference, ref, err)
+	}
 
-	switch refPath[0] {
-	case "components":
+	switch {
+	case len(refPath) >= 3 && refPath[0] == "components":
+		name, subPath := refPath[2], refPath[3:]
 		switch refPath[1] {
 		case "schemas":
-			schema := usedSpec.Components.Schemas[refPath[2]]
-			return schema.referenceFrom(refPath[3:]), nil
+			return s.Components.Schemas[name].referenceFrom(subPath), nil
+		case "messages":
+			return s.Components.Messages[name].referenceFrom(subPath), nil
+		}
+
+		// There is nothing to reference inside the other objects
+		if len(subPath) > 0 {
+			return nil, fmt.Errorf("%w: %q is not supported", ErrInvalidReference, ref)
+		}
+
+		switch refPath[1] {
 		case "servers":
-			return usedSpec.Components.Servers[refPath[2]], nil
+			return s.Components.Servers[name], nil
 		case "channels":
-			return usedSpec.Components.Channels[refPath[2]], nil
+			return s.Components.Channels[name], nil
 		case "operations":
-			return usedSpec.Components.Operations[refPath[2]], nil
-		case "messages":
-			msg := usedSpec.Components.Messages[refPath[2]]
-			return msg.referenceFrom(refPath[3:]), nil
+			return s.Components.Operations[name], nil
 		case "securitySchemes":
-			return usedSpec.Components.SecuritySchemes[refPath[2]], nil
+			return s.Components.SecuritySchemes[name], nil
 		case "serverVariables":
-			return usedSpec.Components.ServerVariables[refPath[2]], nil
+			return s.Components.ServerVariables[name], nil
 		case "parameters":
-			return usedSpec.Components.Parameters[refPath[2]], nil
+			return s.Components.Parameters[name], nil
 		case "correlationIds":
-			return usedSpec.Components.CorrelationIDs[refPath[2]], nil
+			return s.Components.CorrelationIDs[name], nil
 		case "replies":
-			return usedSpec.Components.Replies[refPath[2]], nil
+			return s.Components.Replies[name], nil
 		case "replyAddresses":
-			return usedSpec.Components.ReplyAddresses[refPath[2]], nil
+			return s.Components.ReplyAddresses[name], nil
 		case "externalDocs":
-			return usedSpec.Components.ExternalDocs[refPath[2]], nil
+			return s.Components.ExternalDocs[name], nil
 		case "tags":
-			return usedSpec.Components.Tags[refPath[2]], nil
+			return s.Components.Tags[name], nil
 		case "operationTraits":
-			return usedSpec.Components.OperationTraits[refPath[2]], nil
+			return s.Components.OperationTraits[name], nil
 		case "messageTraits":
-			return usedSpec.Components.MessageTraits[refPath[2]], nil
+			return s.Components.MessageTraits[name], nil
 		case "serverBindings":
-			return usedSpec.Components.ServerBindings[refPath[2]], nil
+			return s.Components.ServerBindings[name], nil
 		case "channelBindings":
-			return usedSpec.Components.ChannelBindings[refPath[2]], nil
+			return s.Components.ChannelBindings[name], nil
 		case "operationBindings":
-			return usedSpec.Components.OperationBindings[refPath[2]], nil
+			return s.Components.OperationBindings[name], nil
 		case "messageBindings":
-			return usedSpec.Components.MessageBindings[refPath[2]], nil
+			return s.Components.MessageBindings[name], nil
 		default:
 			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 		}
-	case "channels":
-		if len(refPath) < 3 {
-			return usedSpec.Channels[refPath[1]], nil
-		}
-		switch refPath[2] {
-		case "messages":
-			msg := usedSpec.Channels[refPath[1]].Messages[refPath[3]]
-			return msg.referenceFrom(refPath[4:]), nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[2], ref)
+	case len(refPath) == 2 && refPath[0] == "channels":
+		return s.Channels[refPath[1]], nil
+	case len(refPath) == 2 && refPath[0] == "servers":
+		return s.Servers[refPath[1]], nil
+	case len(refPath) == 2 && refPath[0] == "operations":
+		return s.Operations[refPath[1]], nil
+	case len(refPath) >= 4 && refPath[0] == "channels" && refPath[2] == "messages":
+		ch := s.Channels[refPath[1]]
+		if ch == nil {
+			return nil, fmt.Errorf("%w: no channel for reference %q", ErrInvalidReference, ref)
 		}
+		return ch.Messages[refPath[3]].referenceFrom(refPath[4:]), nil
 	default:
-		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
+		return nil, fmt.Errorf("%w: %q is not supported", ErrInvalidReference, ref)
 	}
 }
 
-- 
2.43.0


From 15000487976b2f1ccd27f0b32be776b2e4ccef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 26/79] fix: let the dependencies reference each other

---
 pkg/asyncapi/v2/specification.go | 67 ++++++++++++++---------
 pkg/asyncapi/v3/specification.go | 93 ++++++++++++++++++++++----------
 2 files changed, 106 insertions(+), 54 deletions(-)

diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 16a8d20..0809a74 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -66,6 +66,19 @@ func (s *Specification) AddDependency(path string, spec asyncapi.Specification)
 
 // Process processes the Specification to make it ready for code generation.
 func (s *Specification) Process() error {
+	// Process dependencies, which can reference each other
+	for _, spec := range s.dependencies {
+		spec.dependencies = s.dependencies
+		if err := spec.generateMetadata(); err != nil {
+			return err
+		}
+	}
+	for _, spec := range s.dependencies {
+		if err := spec.setDependencies(); err != nil {
+			return err
+		}
+	}
+
 	if err := s.generateMetadata(); err != nil {
 		return err
 	}
@@ -75,12 +88,6 @@ func (s *Specification) Process() error {
 
 // generateMetadata generate metadata for the Specification and its children.
 func (s *Specification) generateMetadata() error {
-	for _, spec := range s.dependencies {
-		if err := spec.generateMetadata(); err != nil {
-			return err
-		}
-	}
-
 	for path, ch := range s.Channels {
 		if err := ch.generateMetadata(path); err != nil {
 			return err
@@ -92,12 +99,6 @@ func (s *Specification) generateMetadata() error {
 
 // setDependencies set dependencies between the different elements of the Specification.
 func (s *Specification) setDependencies() error {
-	for _, spec := range s.dependencies {
-		if err := spec.setDependencies(); err != nil {
-			return err
-		}
-	}
-
 	for _, ch := range s.Channels {
 		if err := ch.setDependencies(*s); err != nil {
 			return err
@@ -175,33 +176,40 @@ func (s Specification) ReferenceMessage(ref string) (*Message, error) {
 
 // ReferenceSchema returns the Any struct corresponding to the given reference.
 func (s Specification) ReferenceSchema(ref string) (*Schema, error) {
+	schema, _, err := s.referenceSchema(ref)
+	return schema, err
+}
+
+// referenceSchema returns the schema corresponding to the given reference, with
+// the specification where it is.
+func (s Specification) referenceSchema(ref string) (*Schema, *Specification, error) {
 	// Get object pointed by reference
-	obj, err := s.reference(ref)
+	obj, spec, err := s.referenceWithSpec(ref)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Cast to schema
 	schema, ok := obj.(*Schema)
 	if !ok {
-		return nil, fmt.Errorf(
+		return nil, nil, fmt.Errorf(
 			"%w: cannot cast %q into 'Schema' (type is %q)",
 			ErrInvalidReference, ref, reflect.TypeOf(obj))
 	}
 
 	// Check that schema is not nil
 	if schema == nil {
-		return nil, fmt.Errorf("%w: empty target for schema reference %q", ErrInvalidReference, ref)
+		return nil, nil, fmt.Errorf("%w: empty target for schema reference %q", ErrInvalidReference, ref)
 	}
 
-	return schema, nil
+	return schema, spec, nil
 }
 
-func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, string, error) {
+func (s Specification) getDependencyBasedOnRef(fullRef string) (*Specification, string, error) {
 	// Separate file from path
-	fileAndPath := strings.Split(ref, "#")
+	fileAndPath := strings.Split(fullRef, "#")
 	if len(fileAndPath) != 2 {
-		return nil, "", fmt.Errorf("%w: invalid reference %q", ErrInvalidReference, ref)
+		return nil, "", fmt.Errorf("%w: invalid reference %q", ErrInvalidReference, fullRef)
 	}
 	file, ref := fileAndPath[0], fileAndPath[1]
 
@@ -217,8 +225,8 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 	s2, ok := s.dependencies[file]
 	if !ok {
 		return nil, "", fmt.Errorf(
-			"%w: file %q is not referenced in dependencies %+v",
-			ErrInvalidReference, file, s.dependencies)
+			"%w: file %q from reference %q is not in the dependencies",
+			ErrInvalidReference, file, fullRef)
 	}
 
 	return s2, ref, nil
@@ -227,6 +235,13 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 // reference returns the object corresponding to the given reference, following
 // the references until the final object if it is itself a reference.
 func (s Specification) reference(ref string) (any, error) {
+	obj, _, err := s.referenceWithSpec(ref)
+	return obj, err
+}
+
+// referenceWithSpec returns the object corresponding to the given reference, with
+// the specification where it is.
+func (s Specification) referenceWithSpec(ref string) (any, *Specification, error) {
 	spec := &s
 	visited := make(map[any]struct{})
 
@@ -234,23 +249,23 @@ func (s Specification) reference(ref string) (any, error) {
 		// Get the object from the specification where it is
 		usedSpec, path, err := spec.getDependencyBasedOnRef(next)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 		obj, err := usedSpec.referenceFromPath(next, path)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
 		// Check that this is not a loop
 		if _, exists := visited[obj]; exists {
-			return nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
+			return nil, nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
 		}
 		visited[obj] = struct{}{}
 
 		// Stop if this is not a reference to another object
 		spec, next = usedSpec, referenceOf(obj)
 		if next == "" {
-			return obj, nil
+			return obj, spec, nil
 		}
 	}
 }
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 6306946..729ce0d 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -52,6 +52,19 @@ func NewSpecification() *Specification {
 
 // Process processes the Specification to make it ready for code generation.
 func (s *Specification) Process() error {
+	// Process dependencies, which can reference each other
+	for _, spec := range s.dependencies {
+		spec.dependencies = s.dependencies
+		if err := spec.generateMetadata(); err != nil {
+			return err
+		}
+	}
+	for _, spec := range s.dependencies {
+		if err := spec.setDependencies(); err != nil {
+			return err
+		}
+	}
+
 	if err := s.generateMetadata(); err != nil {
 		return err
 	}
@@ -87,13 +100,6 @@ func (s *Specification) generateMetadata() error {
 		return nil
 	}
 
-	// Generate metadata for dependencies
-	for _, spec := range s.dependencies {
-		if err := spec.generateMetadata(); err != nil {
-			return err
-		}
-	}
-
 	// Generate metadata for components
 	if err := s.Components.generateMetadata(); err != nil {
 		return err
@@ -135,13 +141,6 @@ func (s *Specification) setDependencies() error {
 		return nil
 	}
 
-	// Set dependencies for dependencies
-	for _, spec := range s.dependencies {
-		if err := spec.setDependencies(); err != nil {
-			return err
-		}
-	}
-
 	// Set dependencies for components
 	if err := s.Components.setDependencies(*s); err != nil {
 		return err
@@ -242,6 +241,30 @@ func (s Specification) ReferenceChannelBindings(ref string) (*ChannelBindings, e
 	return bindings, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceExternalDocumentation returns the ExternalDocumentation struct corresponding to the given reference.
 func (s Specification) ReferenceExternalDocumentation(ref string) (*ExternalDocumentation, error) {
 	// Get object pointed by reference
@@ -532,26 +555,33 @@ func (s Specification) ReferenceSecurity(ref string) (*SecurityScheme, error) {
 
 // ReferenceSchema returns the Schema struct corresponding to the given reference.
 func (s Specification) ReferenceSchema(ref string) (*Schema, error) {
+	schema, _, err := s.referenceSchema(ref)
+	return schema, err
+}
+
+// referenceSchema returns the schema corresponding to the given reference, with
+// the specification where it is.
+func (s Specification) referenceSchema(ref string) (*Schema, *Specification, error) {
 	// Get object pointed by reference
-	obj, err := s.reference(ref)
+	obj, spec, err := s.referenceWithSpec(ref)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Cast to schema
 	schema, ok := obj.(*Schema)
 	if !ok {
-		return nil, fmt.Errorf(
+		return nil, nil, fmt.Errorf(
 			"%w: cannot cast %q into 'Schema' (type is %q)",
 			ErrInvalidReference, ref, reflect.TypeOf(obj))
 	}
 
 	// Check that schema is not nil
 	if schema == nil {
-		return nil, fmt.Errorf("%w: empty target for schema reference %q", ErrInvalidReference, ref)
+		return nil, nil, fmt.Errorf("%w: empty target for schema reference %q", ErrInvalidReference, ref)
 	}
 
-	return schema, nil
+	return schema, spec, nil
 }
 
 // ReferenceServer returns the Server struct corresponding to the given reference.
@@ -650,11 +680,11 @@ func (s Specification) ReferenceTag(ref string) (*Tag, error) {
 	return tag, nil
 }
 
-func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, string, error) {
+func (s Specification) getDependencyBasedOnRef(fullRef string) (*Specification, string, error) {
 	// Separate file from path
-	fileAndPath := strings.Split(ref, "#")
+	fileAndPath := strings.Split(fullRef, "#")
 	if len(fileAndPath) != 2 {
-		return nil, "", fmt.Errorf("%w: invalid reference %q", ErrInvalidReference, ref)
+		return nil, "", fmt.Errorf("%w: invalid reference %q", ErrInvalidReference, fullRef)
 	}
 	file, ref := fileAndPath[0], fileAndPath[1]
 
@@ -670,8 +700,8 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 	s2, ok := s.dependencies[file]
 	if !ok {
 		return nil, "", fmt.Errorf(
-			"%w: file %q is not referenced in dependencies %+v",
-			ErrInvalidReference, file, s.dependencies)
+			"%w: file %q from reference %q is not in the dependencies",
+			ErrInvalidReference, file, fullRef)
 	}
 
 	return s2, ref, nil
@@ -680,6 +710,13 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 // reference returns the object corresponding to the given reference, following
 // the references until the final object if it is itself a reference.
 func (s Specification) reference(ref string) (any, error) {
+	obj, _, err := s.referenceWithSpec(ref)
+	return obj, err
+}
+
+// referenceWithSpec returns the object corresponding to the given reference, with
+// the specification where it is.
+func (s Specification) referenceWithSpec(ref string) (any, *Specification, error) {
 	spec := &s
 	visited := make(map[any]struct{})
 
@@ -687,23 +724,23 @@ func (s Specification) reference(ref string) (any, error) {
 		// Get the object from the specification where it is
 		usedSpec, path, err := spec.getDependencyBasedOnRef(next)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 		obj, err := usedSpec.referenceFromPath(next, path)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
 		// Check that this is not a loop
 		if _, exists := visited[obj]; exists {
-			return nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
+			return nil, nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
 		}
 		visited[obj] = struct{}{}
 
 		// Stop if this is not a reference to another object
 		spec, next = usedSpec, referenceOf(obj)
 		if next == "" {
-			return obj, nil
+			return obj, spec, nil
 		}
 	}
 }
-- 
2.43.0


From 51ab36f5588b6580e9340127a32fea07d52e620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 27/79] fix: combine schemas without altering the ones they
 refer to, and require only what allOf requires

---
 pkg/asyncapi/schema.go    |  18 +--
 pkg/asyncapi/v2/schema.go | 217 ++++++++++++++++------------------
 pkg/asyncapi/v3/schema.go | 242 +++++++++++++++++++++-----------------
 3 files changed, 237 insertions(+), 240 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index b691b5c..d264930 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -29,13 +29,11 @@ type Validations[T any] struct {
 	ShouldOmitEmpty *bool `json:"-"`
 }
 
-// Merge merges the newV into the current Validations.
+// Merge merges the newV into the current Validations. It does not merge what is
+// about the place (required) or the content (properties and compositions) of the schema.
 //
 //nolint:cyclop,funlen // This function is a merge function and it is expected to have a high cyclomatic complexity.
 func (v *Validations[T]) Merge(newV Validations[T]) {
-	if len(newV.Required) > 0 {
-		v.Required = newV.Required
-	}
 	if len(newV.MultipleOf) > 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
@@ -81,18 +79,6 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if newV.Const != nil {
 		v.Const = newV.Const
 	}
-	if len(newV.AllOf) > 0 {
-		v.AllOf = newV.AllOf
-	}
-	if len(newV.AnyOf) > 0 {
-		v.AnyOf = newV.AnyOf
-	}
-	if len(newV.OneOf) > 0 {
-		v.OneOf = newV.OneOf
-	}
-	if newV.IsRequired {
-		v.IsRequired = newV.IsRequired
-	}
 	if newV.ShouldOmitEmpty != nil {
 		v.ShouldOmitEmpty = newV.ShouldOmitEmpty
 	}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 6a51979..cbbd32a 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv2
 
 import (
+	"slices"
 	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -45,6 +46,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet indicates that the dependencies of the schema are already set.
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -118,14 +122,25 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Prevent doing it again (or indefinitely, if the schema references itself)
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Reference to another schema if specified
 	if s.Reference != "" {
-		refTo, err := spec.ReferenceSchema(s.Reference)
+		refTo, refSpec, err := spec.referenceSchema(s.Reference)
 		if err != nil {
 			return err
 		}
 		s.ReferenceTo = refTo
 		s.setValidationsFromReferenced(refTo)
+
+		// Set dependencies of the reference, as they are needed if it is merged
+		if err := refTo.setDependencies(*refSpec); err != nil {
+			return err
+		}
 	}
 
 	// Set properties dependencies
@@ -222,7 +237,7 @@ func (s *Schema) setAnyOfDependencies(spec Specification) error {
 		}
 
 		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
+		if err := s.mergeWith(spec, *v, false); err != nil {
 			return err
 		}
 	}
@@ -248,7 +263,7 @@ func (s *Schema) setOneOfDependencies(spec Specification) error {
 		}
 
 		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
+		if err := s.mergeWith(spec, *v, false); err != nil {
 			return err
 		}
 	}
@@ -359,153 +374,125 @@ func schemaAt(schemas []*Schema, index string) *Schema {
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
-	if s == nil {
-		return nil
-	}
-
-	s.Type = SchemaTypeIsObject.String()
-
-	// Merge with other fields
-	s.mergeWithSchemaAllOf(s2)
-	s.mergeWithSchemaAnyOf(s2)
-	s.mergeWithSchemaOneOf(s2)
-	s.mergeWithSchemaProperties(s2)
-
-	// Merge requirements
-	s.Required = append(s.Required, s2.Required...)
-	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
-
-	return nil
+	return s.mergeWith(spec, s2, true)
 }
 
-func (s *Schema) mergeWithSchemaAllOf(s2 Schema) {
-	// Return if there are no AllOf to merge
-	if s2.AllOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AllOf == nil) {
-		return
-	}
-
-	// Initialize AllOf if they are nil
-	if s.AllOf == nil {
-		s.AllOf = make([]*Schema, 0)
+// mergeWith merges the given Schema structure with another one, without modifying
+// it. What the other one requires is only required if keepRequired is set.
+func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) error {
+	if s == nil {
+		return nil
 	}
 
-	// Add AllOf from s2 to s
-	if s2.AllOf != nil {
-		s.AllOf = append(s.AllOf, s2.AllOf...)
+	// Replace the reference by what it references if merging
+	if s.Reference != "" {
+		reference := *s
+		s.Reference, s.ReferenceTo = "", nil
+		if err := s.mergeWith(spec, reference, true); err != nil {
+			return err
+		}
 	}
 
-	// Add AllOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AllOf != nil {
-		for _, v := range s2.ReferenceTo.AllOf {
-			s.AllOf = append(s.AllOf, &Schema{ReferenceTo: v})
+	// Get what should be merged
+	from := &s2
+	if s2.Reference != "" && s2.ReferenceTo == nil {
+		refTo, err := spec.ReferenceSchema(s2.Reference)
+		if err != nil {
+			return err
 		}
+		from = refTo
+	} else {
+		from = from.Follow()
 	}
-}
 
-func (s *Schema) mergeWithSchemaAnyOf(s2 Schema) {
-	// Return if there are no AnyOf to merge
-	if s2.AnyOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AnyOf == nil) {
-		return
-	}
+	s.Type = SchemaTypeIsObject.String()
 
-	// Initialize AnyOf if they are nil
-	if s.AnyOf == nil {
-		s.AnyOf = make([]*Schema, 0)
+	// Merge requirements
+	if keepRequired {
+		s.Required = append(slices.Clone(s.Required), from.Required...)
+		s.Required = utils.RemoveDuplicateFromSlice(s.Required)
 	}
 
-	// Add AnyOf from s2 to s
-	if s2.AnyOf != nil {
-		s.AnyOf = append(s.AnyOf, s2.AnyOf...)
-	}
+	// Merge properties
+	s.mergeWithProperties(from.Properties, from != &s2)
 
-	// Add AnyOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AnyOf != nil {
-		for _, v := range s2.ReferenceTo.AnyOf {
-			s.AnyOf = append(s.AnyOf, &Schema{ReferenceTo: v})
-		}
+	// Merge additional properties
+	if s.AdditionalProperties == nil && from.AdditionalProperties != nil {
+		s.AdditionalProperties = from.AdditionalProperties.mergeable(from != &s2)
 	}
+
+	return nil
 }
 
-func (s *Schema) mergeWithSchemaOneOf(s2 Schema) {
-	// Return if there are no OneOf to merge
-	if s2.OneOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.OneOf == nil) {
-		return
-	}
+func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced bool) {
+	merged := make(map[string]*Schema, len(s.Properties)+len(properties))
 
-	// Initialize OneOf if they are nil
-	if s.OneOf == nil {
-		s.OneOf = make([]*Schema, 0)
+	// Add the missing properties
+	for k, v := range properties {
+		merged[k] = v.mergeable(isReferenced)
+		merged[k].IsRequired = false
 	}
 
-	// Add OneOf from s2 to s
-	if s2.OneOf != nil {
-		s.OneOf = append(s.OneOf, s2.OneOf...)
+	// Add the existing ones
+	for k, v := range s.Properties {
+		merged[k] = v.mergeable(false)
 	}
 
-	// Add OneOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.OneOf != nil {
-		for _, v := range s2.ReferenceTo.OneOf {
-			s.OneOf = append(s.OneOf, &Schema{ReferenceTo: v})
-		}
+	// Set what is required
+	for k, v := range merged {
+		v.IsRequired = v.IsRequired || s.IsFieldRequired(k)
 	}
+
+	s.Properties = merged
 }
 
-func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
-	// Return if there are no properties to merge
-	if s2.Properties == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil) {
-		return
+// mergeInMessage returns the schema of a message merged with the one from another
+// message, where nothing is required from the other one.
+func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isReferenced bool) (*Schema, error) {
+	// Use directly the one of the other message if this is the first that is not an object
+	if s == nil && s2.Follow().Type != SchemaTypeIsObject.String() {
+		return s2.mergeable(isReferenced), nil
 	}
 
-	// Initialize properties if they are nil
-	if s.Properties == nil {
-		s.Properties = make(map[string]*Schema)
+	// Otherwise, merge in an object of this message
+	if s == nil {
+		s = utils.ToPointer(NewSchema())
+		s.Name = name
+		s.dependenciesSet = true
 	}
 
-	// Add properties from s2 to s
-	for k, v := range s2.Properties {
-		_, exists := s.Properties[k]
-		if exists {
-			continue
-		}
-
-		s.Properties[k] = v
+	// The types of the other message are already generated if it is referenced
+	if isReferenced && s2.Reference == "" {
+		s2 = &Schema{ReferenceTo: s2}
 	}
 
-	// Add properties from s2 reference to s
-	s.mergeWithSchemaReferenceProperties(s2)
+	return s, s.mergeWith(spec, *s2, false)
 }
 
-func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
-	// Return if there are no properties to merge
-	if s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil {
-		return
-	}
-
-	// Add properties from s2 reference to s
-	for k, v := range s2.ReferenceTo.Properties {
-		// Skip if the property already exists
-		_, exists := s.Properties[k]
-		if exists {
-			continue
-		}
-
-		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
+// mergeable returns a copy of the schema that can be used in another one. If the
+// schema is referenced, then its types are already generated and are referenced too.
+func (s *Schema) mergeable(isReferenced bool) *Schema {
+	copied := *s
+	if !isReferenced || s.ExtGoType != "" || s.ReferenceTo != nil {
+		return &copied
+	}
+
+	switch s.Type {
+	case SchemaTypeIsObject.String():
+		copied = Schema{
+			Name:        s.Name,
+			ReferenceTo: s,
+			Validations: s.Validations,
+			Extensions:  s.Extensions,
 		}
-
-		// Add to required if it is required
-		if v.IsRequired {
-			s.Required = append(s.Required, k)
+		copied.Required, copied.AllOf, copied.AnyOf, copied.OneOf = nil, nil, nil, nil
+	case SchemaTypeIsArray.String():
+		if s.Items != nil {
+			copied.Items = s.Items.mergeable(isReferenced)
 		}
 	}
+
+	return &copied
 }
 
 // Follow returns referenced schema if specified or the actual schema.
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 3b8209f..dcff339 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,8 @@
 package asyncapiv3
 
 import (
+	"maps"
+	"slices"
 	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -62,6 +64,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// dependenciesSet indicates that the dependencies of the schema are already set.
+	dependenciesSet bool
+
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
 
@@ -176,6 +181,12 @@ func (s *Schema) setDependencies(spec Specification) error {
 		return nil
 	}
 
+	// Prevent doing it again (or indefinitely, if the schema references itself)
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Set reference
 	if err := s.setReference(spec); err != nil {
 		return err
@@ -266,7 +277,7 @@ func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 		}
 
 		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
+		if err := s.mergeWith(spec, *v, false); err != nil {
 			return err
 		}
 	}
@@ -281,7 +292,7 @@ func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 		}
 
 		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
+		if err := s.mergeWith(spec, *v, false); err != nil {
 			return err
 		}
 	}
@@ -295,14 +306,15 @@ func (s *Schema) setReference(spec Specification) error {
 	}
 
 	// Add pointer to reference
-	refTo, err := spec.ReferenceSchema(s.Reference)
+	refTo, refSpec, err := spec.referenceSchema(s.Reference)
 	if err != nil {
 		return err
 	}
 	s.ReferenceTo = refTo
 	s.Validations.Merge(refTo.Validations)
 
-	return nil
+	// Set dependencies of the reference, as they are needed if it is merged
+	return refTo.setDependencies(*refSpec)
 }
 
 // IsFieldRequired checks if a field is required in the asyncapi struct.
@@ -370,153 +382,165 @@ func schemaAt(schemas []*Schema, index string) *Schema {
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
+	return s.mergeWith(spec, s2, true)
+}
+
+// mergeWith merges the given Schema structure with another one, without modifying
+// it. What the other one requires is only required if keepRequired is set.
+func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) error {
 	if s == nil {
 		return nil
 	}
 
-	s.Type = SchemaTypeIsObject.String()
-
-	// Merge with other fields
-	s.mergeWithSchemaAllOf(s2)
-	s.mergeWithSchemaAnyOf(s2)
-	s.mergeWithSchemaOneOf(s2)
-	s.mergeWithSchemaProperties(s2)
+	// Replace the reference by what it references if merging
+	if s.Reference != "" {
+		reference := *s
+		s.Reference, s.ReferenceTo = "", nil
+		if err := s.mergeWith(spec, reference, true); err != nil {
+			return err
+		}
+	}
 
-	// Merge requirements
-	s.Required = append(s.Required, s2.Required...)
-	s.Required = utils.RemoveDuplicateFromSlice(s.Required)
+	// Get what should be merged
+	from := &s2
+	if s2.Reference != "" && s2.ReferenceTo == nil {
+		refTo, err := spec.ReferenceSchema(s2.Reference)
+		if err != nil {
+			return err
+		}
+		from = refTo
+	} else {
+		from = from.Follow()
+	}
 
-	return nil
-}
+	s.Type = SchemaTypeIsObject.String()
 
-func (s *Schema) mergeWithSchemaAllOf(s2 Schema) {
-	// Return if there are no AllOf to merge
-	if s2.AllOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AllOf == nil) {
-		return
+	// Merge requirements
+	if keepRequired {
+		s.Required = append(slices.Clone(s.Required), from.Required...)
+		s.Required = utils.RemoveDuplicateFromSlice(s.Required)
 	}
 
-	// Initialize AllOf if they are nil
-	if s.AllOf == nil {
-		s.AllOf = make([]*Schema, 0)
-	}
+	// Merge properties
+	s.mergeWithProperties(from.Properties, from != &s2)
 
-	// Add AllOf from s2 to s
-	if s2.AllOf != nil {
-		s.AllOf = append(s.AllOf, s2.AllOf...)
+	// Merge additional properties
+	if s.AdditionalProperties == nil && from.AdditionalProperties != nil {
+		s.AdditionalProperties = from.AdditionalProperties.mergeable(from != &s2)
 	}
 
-	// Add AllOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AllOf != nil {
-		for _, v := range s2.ReferenceTo.AllOf {
-			s.AllOf = append(s.AllOf, &Schema{ReferenceTo: v})
-		}
-	}
+	return nil
 }
 
-func (s *Schema) mergeWithSchemaAnyOf(s2 Schema) {
-	// Return if there are no AnyOf to merge
-	if s2.AnyOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.AnyOf == nil) {
-		return
-	}
+func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced bool) {
+	merged := make(map[string]*Schema, len(s.Properties)+len(properties))
 
-	// Initialize AnyOf if they are nil
-	if s.AnyOf == nil {
-		s.AnyOf = make([]*Schema, 0)
+	// Add the missing properties
+	for k, v := range properties {
+		merged[k] = v.mergeable(isReferenced)
+		merged[k].IsRequired = false
 	}
 
-	// Add AnyOf from s2 to s
-	if s2.AnyOf != nil {
-		s.AnyOf = append(s.AnyOf, s2.AnyOf...)
+	// Add the existing ones
+	for k, v := range s.Properties {
+		merged[k] = v.mergeable(false)
 	}
 
-	// Add AnyOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.AnyOf != nil {
-		for _, v := range s2.ReferenceTo.AnyOf {
-			s.AnyOf = append(s.AnyOf, &Schema{ReferenceTo: v})
-		}
+	// Set what is required
+	for k, v := range merged {
+		v.IsRequired = v.IsRequired || s.IsFieldRequired(k)
 	}
+
+	s.Properties = merged
 }
 
-func (s *Schema) mergeWithSchemaOneOf(s2 Schema) {
-	// Return if there are no OneOf to merge
-	if s2.OneOf == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.OneOf == nil) {
-		return
+// mergeInMessage returns the schema of a message merged with the one from another
+// message, where nothing is required from the other one.
+func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isReferenced bool) (*Schema, error) {
+	// Use directly the one of the other message if this is the first that is not an object
+	if s == nil && s2.Follow().Type != SchemaTypeIsObject.String() {
+		return s2.mergeable(isReferenced), nil
 	}
 
-	// Initialize OneOf if they are nil
-	if s.OneOf == nil {
-		s.OneOf = make([]*Schema, 0)
+	// Otherwise, merge in an object of this message
+	if s == nil {
+		s = utils.ToPointer(NewSchema())
+		s.Name = name
+		s.dependenciesSet = true
 	}
 
-	// Add OneOf from s2 to s
-	if s2.OneOf != nil {
-		s.OneOf = append(s.OneOf, s2.OneOf...)
+	// The types of the other message are already generated if it is referenced
+	if isReferenced && s2.Reference == "" {
+		s2 = &Schema{ReferenceTo: s2}
 	}
 
-	// Add OneOf from s2 reference to s
-	if s2.ReferenceTo != nil && s2.ReferenceTo.OneOf != nil {
-		for _, v := range s2.ReferenceTo.OneOf {
-			s.OneOf = append(s.OneOf, &Schema{ReferenceTo: v})
+	return s, s.mergeWith(spec, *s2, false)
+}
+
+// mergeable returns a copy of the schema that can be used in another one. If the
+// schema is referenced, then its types are already generated and are referenced too.
+func (s *Schema) mergeable(isReferenced bool) *Schema {
+	copied := *s
+	if !isReferenced || s.ExtGoType != "" || s.ReferenceTo != nil {
+		return &copied
+	}
+
+	switch s.Type {
+	case SchemaTypeIsObject.String():
+		copied = Schema{
+			Name:        s.Name,
+			ReferenceTo: s,
+			Validations: s.Validations,
+			Extensions:  s.Extensions,
+		}
+		copied.Required, copied.AllOf, copied.AnyOf, copied.OneOf = nil, nil, nil, nil
+	case SchemaTypeIsArray.String():
+		if s.Items != nil {
+			copied.Items = s.Items.mergeable(isReferenced)
 		}
 	}
+
+	return &copied
 }
 
-func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
-	// Return if there are no properties to merge
-	if s2.Properties == nil && (s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil) {
-		return
+// clone returns a copy of the schema and of everything that is in it. What is
+// referenced is not copied.
+func (s *Schema) clone() *Schema {
+	if s == nil {
+		return nil
 	}
 
-	// Initialize properties if they are nil
-	if s.Properties == nil {
-		s.Properties = make(map[string]*Schema)
-	}
+	cloned := *s
+	cloned.Properties = cloneSchemasMap(s.Properties)
+	cloned.PatternProperties = cloneSchemasMap(s.PatternProperties)
+	cloned.AdditionalProperties = s.AdditionalProperties.clone()
+	cloned.AdditionalItems = cloneSchemas(s.AdditionalItems)
+	cloned.Items = s.Items.clone()
+	cloned.Contains = cloneSchemas(s.Contains)
+	cloned.AllOf = cloneSchemas(s.AllOf)
+	cloned.AnyOf = cloneSchemas(s.AnyOf)
+	cloned.OneOf = cloneSchemas(s.OneOf)
+	cloned.Not = s.Not.clone()
 
-	// Add properties from s2 to s
-	for k, v := range s2.Properties {
-		_, exists := s.Properties[k]
-		if exists {
-			continue
-		}
+	return &cloned
+}
 
-		s.Properties[k] = v
+func cloneSchemas(schemas []*Schema) []*Schema {
+	cloned := slices.Clone(schemas)
+	for i, s := range cloned {
+		cloned[i] = s.clone()
 	}
 
-	// Add properties from s2 reference to s
-	s.mergeWithSchemaReferenceProperties(s2)
+	return cloned
 }
 
-func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
-	// Return if there are no properties to merge
-	if s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil {
-		return
+func cloneSchemasMap(schemas map[string]*Schema) map[string]*Schema {
+	cloned := maps.Clone(schemas)
+	for k, s := range cloned {
+		cloned[k] = s.clone()
 	}
 
-	// Add properties from s2 reference to s
-	for k, v := range s2.ReferenceTo.Properties {
-		// Skip if the property already exists
-		_, exists := s.Properties[k]
-		if exists {
-			continue
-		}
-
-		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
-
-		// Add to required if it is required
-		if v.IsRequired {
-			s.Required = append(s.Required, k)
-		}
-	}
+	return cloned
 }
 
 // Follow returns referenced schema if specified or the actual schema.
-- 
2.43.0


From b0764b1822f38812e97503d24ef64e389cdda00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 28/79] fix: apply traits and correlation IDs of messages once
 references are known, without sharing schemas

---
 pkg/asyncapi/v2/message.go        |  98 ++++++------------
 pkg/asyncapi/v3/correlation_id.go |  14 ++-
 pkg/asyncapi/v3/message.go        | 164 +++++++++++++++---------------
 3 files changed, 125 insertions(+), 151 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index c282c4a..efccd68 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -8,7 +8,6 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
-	"github.com/mohae/deepcopy"
 )
 
 const (
@@ -72,13 +71,7 @@ func (msg *Message) generateMetadata(name string) error {
 	}
 
 	// Generate OneOf metadata
-	if err := msg.generateOneOfMetadata(); err != nil {
-		return err
-	}
-
-	// Generate CorrelationID metadata
-	msg.generateCorrelationIDMetadata()
-	return nil
+	return msg.generateOneOfMetadata()
 }
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
@@ -146,12 +139,11 @@ func (msg *Message) setHeadersDependencies(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) generateCorrelationIDMetadata() {
+func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
+	// NOTE: this has to be done once the references are known
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-}
 
-func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	loc, err := msg.getCorrelationIDLocation(spec)
 	if err != nil {
 		return err
@@ -260,8 +252,12 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
 		(*placeholder).Type = SchemaTypeIsObject.String()
+		if t == MessageFieldIsHeader {
+			(*placeholder).Name = template.Namify(msg.Name + "_Headers")
+		} else {
+			(*placeholder).Name = template.Namify(msg.Name + "_Payload")
+		}
 		fallthrough
 	default:
 		// Set the child as the message headers
@@ -285,11 +281,11 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = template.Namify(correlationIDParent.Name + template.Namify(v))
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
@@ -319,7 +315,8 @@ func (msg *Message) referenceFrom(ref []string) any {
 	return next.referenceFrom(ref[1:])
 }
 
-// MergeWith merges the Message with another one.
+// MergeWith merges the Message with another one, without modifying it. What the
+// other one requires is not required, as it may be an other one that is received.
 func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 	// Remove reference if merging
 	if err := msg.mergeWithSelfReference(spec); err != nil {
@@ -327,18 +324,33 @@ func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 	}
 
 	// Get reference from msg2
-	if err := msg.mergeWithMessageFromReference(msg2, spec); err != nil {
-		return err
+	isReferenced := msg2.Reference != ""
+	if isReferenced {
+		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
+		if err != nil {
+			return err
+		}
+		msg2 = *refMsg2
 	}
 
 	// Merge Payload
-	if err := msg.mergeWithMessagePayload(msg2, spec); err != nil {
-		return err
+	if msg2.Payload != nil {
+		name := template.Namify(msg.Name + "_Payload")
+		payload, err := msg.Payload.mergeInMessage(spec, name, msg2.Payload, isReferenced)
+		if err != nil {
+			return err
+		}
+		msg.Payload = payload
 	}
 
 	// Merge Headers
-	if err := msg.mergeWithMessageHeaders(msg2, spec); err != nil {
-		return err
+	if msg2.Headers != nil {
+		name := template.Namify(msg.Name + "_Headers")
+		headers, err := msg.Headers.mergeInMessage(spec, name, msg2.Headers, isReferenced)
+		if err != nil {
+			return err
+		}
+		msg.Headers = headers
 	}
 
 	return nil
@@ -364,50 +376,6 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specification) error {
-	if msg2.Reference != "" {
-		// Get referenced message
-		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
-		if err != nil {
-			return err
-		}
-
-		// Merge with referenced message
-		if err := msg2.MergeWith(spec, *refMsg2); err != nil {
-			return err
-		}
-	}
-
-	return nil
-}
-
-func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
-	if msg2.Payload != nil {
-		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
-		} else {
-			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
-				return err
-			}
-		}
-	}
-
-	return nil
-}
-
-func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
-	if msg2.Headers != nil {
-		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
-		} else {
-			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
-				return err
-			}
-		}
-	}
-	return nil
-}
-
 // Follow will follow the reference to the end.
 func (msg *Message) Follow() *Message {
 	if msg.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 720d21e..d3b7b4f 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -12,8 +12,8 @@ type CorrelationID struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name        string   `json:"-"`
-	ReferenceTo *Channel `json:"-"`
+	Name        string         `json:"-"`
+	ReferenceTo *CorrelationID `json:"-"`
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -36,7 +36,7 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 
 	// Add pointer to reference if there is one
 	if c.Reference != "" {
-		refTo, err := spec.ReferenceChannel(c.Reference)
+		refTo, err := spec.ReferenceCorrelationID(c.Reference)
 		if err != nil {
 			return err
 		}
@@ -50,3 +50,11 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 func (c *CorrelationID) Exists() bool {
 	return c != nil && c.Location != ""
 }
+
+// Follow returns referenced correlation ID if specified or the actual correlation ID.
+func (c *CorrelationID) Follow() *CorrelationID {
+	if c != nil && c.ReferenceTo != nil {
+		return c.ReferenceTo
+	}
+	return c
+}
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index a10522d..065d032 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
-	"github.com/mohae/deepcopy"
 )
 
 // MessageField is a structure that represents the type of a field.
@@ -100,16 +99,11 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 	// Generate Message Examples metadata
 	msg.generateExamplesMetadata()
 
-	// Generate traits metadata
-	if err := msg.generateTraitsMetadata(); err != nil {
-		return err
-	}
+	// Generate correlation ID metadata
+	msg.CorrelationID.generateMetadata(msg.Name, "")
 
-	// Process correlation ID
-	msg.createCorrelationIDFieldIfMissing()
-	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
-
-	return nil
+	// Generate traits metadata
+	return msg.generateTraitsMetadata()
 }
 
 // setDependencies sets dependencies between the different elements of the Message.
@@ -160,7 +154,12 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Set correlation ID dependencies
+	return msg.setCorrelationIDDependencies(spec)
 }
 
 func (msg *Message) setReference(spec Specification) error {
@@ -214,10 +213,19 @@ func (msg *Message) generateHeadersMetadata() error {
 		return nil
 	}
 
-	if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	return msg.Headers.generateMetadata(msg.Name, "Headers", nil, false)
+}
+
+func (msg *Message) setHeadersDependencies(spec Specification) error {
+	if msg.Headers == nil {
+		return nil
+	}
+
+	if err := msg.Headers.setDependencies(spec); err != nil {
 		return err
 	}
 
+	// Check Headers is an object, after processing
 	if msg.Headers.Follow().Type != SchemaTypeIsObject.String() {
 		return fmt.Errorf(
 			"%w: %q headers must be an object, is %q",
@@ -227,12 +235,18 @@ func (msg *Message) generateHeadersMetadata() error {
 	return nil
 }
 
-func (msg *Message) setHeadersDependencies(spec Specification) error {
-	if msg.Headers == nil {
-		return nil
+func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
 	}
 
-	return msg.Headers.setDependencies(spec)
+	// Process correlation ID
+	// NOTE: this has to be done once the references and the traits are known
+	msg.CorrelationID = msg.CorrelationID.Follow()
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) generateOneOfMetadata() error {
@@ -339,8 +353,12 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
 		(*placeholder).Type = SchemaTypeIsObject.String()
+		if t == MessageFieldIsHeader {
+			(*placeholder).Name = generateFullName(msg.Name, "Headers", "", nil)
+		} else {
+			(*placeholder).Name = generateFullName("", msg.Name+"_Payload", "", nil)
+		}
 		fallthrough
 	default:
 		// Set the child as the message headers
@@ -364,11 +382,11 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
@@ -398,7 +416,8 @@ func (msg *Message) referenceFrom(ref []string) any {
 	return next.referenceFrom(ref[1:])
 }
 
-// MergeWith merges the Message with another one.
+// MergeWith merges the Message with another one, without modifying it. What the
+// other one requires is not required, as it may be an other one that is received.
 func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 	// Remove reference if merging
 	if err := msg.mergeWithSelfReference(spec); err != nil {
@@ -406,18 +425,33 @@ func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 	}
 
 	// Get reference from msg2
-	if err := msg.mergeWithMessageFromReference(msg2, spec); err != nil {
-		return err
+	isReferenced := msg2.Reference != ""
+	if isReferenced {
+		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
+		if err != nil {
+			return err
+		}
+		msg2 = *refMsg2
 	}
 
 	// Merge Payload
-	if err := msg.mergeWithMessagePayload(msg2, spec); err != nil {
-		return err
+	if msg2.Payload != nil {
+		name := generateFullName("", msg.Name+"_Payload", "", nil)
+		payload, err := msg.Payload.mergeInMessage(spec, name, msg2.Payload, isReferenced)
+		if err != nil {
+			return err
+		}
+		msg.Payload = payload
 	}
 
 	// Merge Headers
-	if err := msg.mergeWithMessageHeaders(msg2, spec); err != nil {
-		return err
+	if msg2.Headers != nil {
+		name := generateFullName(msg.Name, "Headers", "", nil)
+		headers, err := msg.Headers.mergeInMessage(spec, name, msg2.Headers, isReferenced)
+		if err != nil {
+			return err
+		}
+		msg.Headers = headers
 	}
 
 	return nil
@@ -443,50 +477,6 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specification) error {
-	if msg2.Reference != "" {
-		// Get referenced message
-		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
-		if err != nil {
-			return err
-		}
-
-		// Merge with referenced message
-		if err := msg2.MergeWith(spec, *refMsg2); err != nil {
-			return err
-		}
-	}
-
-	return nil
-}
-
-func (msg *Message) mergeWithMessagePayload(msg2 Message, spec Specification) error {
-	if msg2.Payload != nil {
-		if msg.Payload == nil {
-			msg.Payload = deepcopy.Copy(msg2.Payload).(*Schema)
-		} else {
-			if err := msg.Payload.MergeWith(spec, *msg2.Payload); err != nil {
-				return err
-			}
-		}
-	}
-
-	return nil
-}
-
-func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) error {
-	if msg2.Headers != nil {
-		if msg.Headers == nil {
-			msg.Headers = deepcopy.Copy(msg2.Headers).(*Schema)
-		} else {
-			if err := msg.Headers.MergeWith(spec, *msg2.Headers); err != nil {
-				return err
-			}
-		}
-	}
-	return nil
-}
-
 // Follow returns referenced message if specified or the actual message.
 func (msg *Message) Follow() *Message {
 	if msg.ReferenceTo != nil {
@@ -562,14 +552,18 @@ func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
 		return nil
 	}
 
-	// Check if message headers are nil, then create them
-	if msg.Headers == nil {
-		newHeaders := utils.ToValue(headers.Follow())
-		msg.Headers = &newHeaders
-		if err := newHeaders.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	// Get a copy of the headers for this message, unless it is a reference
+	headers = headers.clone()
+	if headers.Reference == "" {
+		if err := headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
 			return err
 		}
-		return newHeaders.setDependencies(spec)
+	}
+
+	// Check if message headers are nil, then set them
+	if msg.Headers == nil {
+		msg.Headers = headers
+		return headers.setDependencies(spec)
 	}
 
 	// Merge headers
@@ -582,18 +576,22 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 		return nil
 	}
 
-	// Check if message payload is nil, then create them
-	if msg.Payload == nil {
-		newPayload := utils.ToValue(payload.Follow())
-		msg.Payload = &newPayload
-		if err := newPayload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
+	// Get a copy of the payload for this message, unless it is a reference
+	payload = payload.clone()
+	if payload.Reference == "" {
+		if err := payload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
 			return err
 		}
-		return newPayload.setDependencies(spec)
+	}
+
+	// Check if message payload is nil, then set it
+	if msg.Payload == nil {
+		msg.Payload = payload
+		return payload.setDependencies(spec)
 	}
 
 	// Merge payload
-	return msg.Headers.MergeWith(spec, *payload)
+	return msg.Payload.MergeWith(spec, *payload)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
-- 
2.43.0


From 90ae448df20407799c6ee574b9b1276fc3d28125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 29/79] fix: use the referenced replies and reply addresses,
 for each operation

---
 pkg/asyncapi/v3/operation.go               | 23 +++++++++++++++++++++-
 pkg/asyncapi/v3/operation_reply_address.go |  3 ++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8dc4da5..8844968 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -141,7 +141,7 @@ func (op *Operation) setDependencies(spec Specification) error {
 	}
 
 	// Set reply dependencies if there is one
-	if err := op.Reply.setDependencies(op, spec); err != nil {
+	if err := op.setReplyDependencies(spec); err != nil {
 		return err
 	}
 
@@ -164,6 +164,27 @@ func (op *Operation) setReference(spec Specification) error {
 	return nil
 }
 
+func (op *Operation) setReplyDependencies(spec Specification) error {
+	if err := op.Reply.setDependencies(op, spec); err != nil {
+		return err
+	}
+
+	// Use a copy of the referenced reply if there is one, as what depends on the
+	// operation cannot be shared with other operations
+	if op.Reply != nil && op.Reply.ReferenceTo != nil {
+		reply := *op.Reply.ReferenceTo
+		if reply.Address != nil {
+			address := *reply.Address
+			reply.Address = &address
+		}
+		op.Reply = &reply
+
+		return op.Reply.setDependencies(op, spec)
+	}
+
+	return nil
+}
+
 func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	for _, t := range op.Traits {
 		if err := t.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 8f7fc1e..66828fd 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -46,6 +46,7 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 			return err
 		}
 		ora.ReferenceTo = refTo
+		ora.Location = refTo.Location
 	}
 
 	// Get location to schema
@@ -69,7 +70,7 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 		return false, err
 	}
 
-	locationParent := msg.createTreeUntilLocation(ora.Location)
+	locationParent := msg.Follow().createTreeUntilLocation(ora.Location)
 	path := strings.Split(ora.Location, "/")
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
-- 
2.43.0


From d915b00a6ae16df5838fc3a48509c9f209c9d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 30/79] fix: encode and decode payloads and headers the same
 way, whatever their type

---
 .../generators/v2/templates/message.tmpl      | 260 ++++++++---------
 .../generators/v3/templates/message.tmpl      | 264 ++++++++----------
 pkg/utils/template/helpers.go                 |  32 +++
 3 files changed, 264 insertions(+), 292 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..7a7728d 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -1,5 +1,7 @@
 {{define "message" -}}
 
+{{if not $.Reference }}
+
 {{- if and .Headers (not .Headers.ReferenceTo) }}
 {{template "schema-definition" .Headers}}
 {{- end}}
@@ -45,37 +47,47 @@ func New{{namify .Name}}() {{namify .Name}} {
 func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .Name}}, error) {
     var msg {{namify .Name}}
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
-
-    {{- /* Handle payload based on type */}}
-    {{- if eq $payload.Type "string"}}
+    {{- /* Handle payload based on its encoding */}}
+    {{- $payload := .Payload.Follow}}
+    {{- $encoding := getPayloadEncoding $payload.Type $payload.Format $payload.ExtGoType}}
+    {{- if eq $encoding "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
-            t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
-            if err != nil {
-                return {{namify .Name}}{}, err
-            }
-            payload := t
-        {{- else}}
-            payload := string(bMsg.Payload)
-        {{- end}}
-    {{- else if eq $payload.Type "integer"}}
-        // Convert to integer
-        {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+        msg.Payload = {{template "schema-name" .Payload}}(bMsg.Payload)
+    {{- else if eq $encoding "date-time"}}
+        // Convert from RFC3339
+        payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
+        if err != nil {
+            return {{namify .Name}}{}, err
+        }
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
+    {{- else if eq $encoding "date"}}
+        // Convert from RFC3339 full-date
+        payload, err := civil.ParseDate(string(bMsg.Payload))
+        if err != nil {
+            return {{namify .Name}}{}, err
+        }
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
+    {{- else if or (eq $encoding "int32") (eq $encoding "float32")}}
+        // Convert from the 4 bytes of the number
+        if len(bMsg.Payload) != 4 {
+            return {{namify .Name}}{}, fmt.Errorf("payload should have 4 bytes, but has %d", len(bMsg.Payload))
+        }
+        payload := binary.BigEndian.Uint32(bMsg.Payload)
+        {{- if eq $encoding "int32"}}
+        msg.Payload = {{template "schema-name" .Payload}}(int32(payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+        msg.Payload = {{template "schema-name" .Payload}}(math.Float32frombits(payload))
         {{- end}}
-    {{- else if eq $payload.Type "number"}}
-        // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+    {{- else if or (eq $encoding "int64") (eq $encoding "float64")}}
+        // Convert from the 8 bytes of the number
+        if len(bMsg.Payload) != 8 {
+            return {{namify .Name}}{}, fmt.Errorf("payload should have 8 bytes, but has %d", len(bMsg.Payload))
+        }
+        payload := binary.BigEndian.Uint64(bMsg.Payload)
+        {{- if eq $encoding "int64"}}
+        msg.Payload = {{template "schema-name" .Payload}}(int64(payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+        msg.Payload = {{template "schema-name" .Payload}}(math.Float64frombits(payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -83,16 +95,6 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         if err != nil {
             return msg, err
         }
-    {{- end -}}
-
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
-        {{- /* If that's a reference, then there will be a conversion to struct to add */}}
-        {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
-        {{- else}}
-            msg.Payload = payload // No need for type conversion to reference
-        {{- end}}
     {{- end}}
 
     {{ if .Headers -}}
@@ -100,48 +102,34 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     for k, v := range bMsg.Headers {
         switch {
 
-            {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
-
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
-            {{- range  $key, $value := $headerProperties}}
+            {{- range  $key, $value := .Headers.Follow.Properties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        h := {{$value.Type}}(v)
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
+                {{- $schema := $value.Follow}}
+                {{- $encoding := getHeaderEncoding $schema.Type $schema.Format $schema.ExtGoType}}
+                {{- if eq $encoding "string"}}
+                h := {{template "schema-name" $value}}(v)
+                {{- else if eq $encoding "date-time"}}
+                t, err := time.Parse(time.RFC3339, string(v))
+                if err != nil {
+                    return msg, err
+                }
+                h := {{template "schema-name" $value}}(t)
+                {{- else if eq $encoding "date"}}
+                d, err := civil.ParseDate(string(v))
+                if err != nil {
+                    return msg, err
+                }
+                h := {{template "schema-name" $value}}(d)
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                    {{- end}}
+                var h {{template "schema-name" $value}}
+                err := json.Unmarshal(v, &h)
+                if err != nil {
+                    return msg, err
+                }
                 {{- end}}
+                msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value}}&{{end}}h
             {{- end}}
         default:
             // TODO: log unknown error
@@ -158,94 +146,80 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
 func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error) {
     // TODO: implement checks on message
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
-
-    {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- /* Handle payload based on its encoding */}}
+    {{- $payload := .Payload.Follow}}
+    {{- $encoding := getPayloadEncoding $payload.Type $payload.Format $payload.ExtGoType}}
+    {{- if eq $encoding "string"}}
+        // Convert to []byte
+        payload := []byte(msg.Payload)
+    {{- else if eq $encoding "date-time"}}
+        // Convert to RFC3339 and to []byte
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
+    {{- else if eq $encoding "date"}}
+        // Convert to RFC3339 full-date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
+    {{- else if or (eq $encoding "int32") (eq $encoding "float32")}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
-            payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
+        payload := make([]byte, 4)
+        {{- if eq $encoding "int32"}}
+        binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
-            payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, uint64(msg.Payload))
+        binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- end}}
-    {{- else if eq $payload.Type "number"}}
+    {{- else if or (eq $encoding "int64") (eq $encoding "float64")}}
         // Convert to []byte{}
-        {{- if and $payload.Format (eq $payload.Format "float")}}
-            payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+        payload := make([]byte, 8)
+        {{- if eq $encoding "int64"}}
+        binary.BigEndian.PutUint64(payload, uint64(msg.Payload))
         {{- else}}
-            payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+        binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
-    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
-        // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
     {{- else}}
-        // Convert to []byte
-        payload := []byte(msg.Payload)
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
     {{ if .Headers -}}
-        {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties -}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
         {{- $headers := .Headers -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
+            {{- $schema := $value.Follow}}
+            {{- $encoding := getHeaderEncoding $schema.Type $schema.Format $schema.ExtGoType}}
+            {{- $isPointer := isFieldPointer $headers $key $value}}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                    if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                    }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
-                    }
-                    headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
-                if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
+            {{- if and $value.IsRequired $isPointer}}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
+                }
+            {{- end}}
+            {{- if not $value.IsRequired}}
+            if msg.Headers.{{namify $key}} != nil {
+            {{- end}}
+                {{- if eq $encoding "string"}}
+                headers["{{$key}}"] = []byte({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}})
+                {{- else if eq $encoding "date-time"}}
+                headers["{{$key}}"] = []byte(time.Time({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                {{- else if eq $encoding "date"}}
+                headers["{{$key}}"] = []byte(civil.Date({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).String())
+                {{- else}}
+                h{{namify $key}}, err := json.Marshal(msg.Headers.{{namify $key}})
+                if err != nil {
+                    return extensions.BrokerMessage{}, err
                 }
-            {{- end }}
+                headers["{{$key}}"] = h{{namify $key}}
+                {{- end}}
+            {{- if not $value.IsRequired}}
+            }
+            {{- end}}
         {{- end}}
         {{ else -}}
         // There is no headers here
@@ -285,4 +259,6 @@ func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
+{{- end -}}
+
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..5739722 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -54,37 +54,47 @@ func New{{namify .Name}}() {{namify .Name}} {
 func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .Name}}, error) {
     var msg {{namify .Name}}
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
-
-    {{- /* Handle payload based on type */}}
-    {{- if eq $payload.Type "string"}}
+    {{- /* Handle payload based on its encoding */}}
+    {{- $payload := .Payload.Follow}}
+    {{- $encoding := getPayloadEncoding $payload.Type $payload.Format $payload.ExtGoType}}
+    {{- if eq $encoding "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
-            t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
-            if err != nil {
-                return {{namify .Name}}{}, err
-            }
-            payload := t
-        {{- else}}
-            payload := string(bMsg.Payload)
-        {{- end}}
-    {{- else if eq $payload.Type "integer"}}
-        // Convert to integer
-        {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+        msg.Payload = {{template "schema-name" .Payload}}(bMsg.Payload)
+    {{- else if eq $encoding "date-time"}}
+        // Convert from RFC3339
+        payload, err := time.Parse(time.RFC3339, string(bMsg.Payload))
+        if err != nil {
+            return {{namify .Name}}{}, err
+        }
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
+    {{- else if eq $encoding "date"}}
+        // Convert from RFC3339 full-date
+        payload, err := civil.ParseDate(string(bMsg.Payload))
+        if err != nil {
+            return {{namify .Name}}{}, err
+        }
+        msg.Payload = {{template "schema-name" .Payload}}(payload)
+    {{- else if or (eq $encoding "int32") (eq $encoding "float32")}}
+        // Convert from the 4 bytes of the number
+        if len(bMsg.Payload) != 4 {
+            return {{namify .Name}}{}, fmt.Errorf("payload should have 4 bytes, but has %d", len(bMsg.Payload))
+        }
+        payload := binary.BigEndian.Uint32(bMsg.Payload)
+        {{- if eq $encoding "int32"}}
+        msg.Payload = {{template "schema-name" .Payload}}(int32(payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+        msg.Payload = {{template "schema-name" .Payload}}(math.Float32frombits(payload))
         {{- end}}
-    {{- else if eq $payload.Type "number"}}
-        // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+    {{- else if or (eq $encoding "int64") (eq $encoding "float64")}}
+        // Convert from the 8 bytes of the number
+        if len(bMsg.Payload) != 8 {
+            return {{namify .Name}}{}, fmt.Errorf("payload should have 8 bytes, but has %d", len(bMsg.Payload))
+        }
+        payload := binary.BigEndian.Uint64(bMsg.Payload)
+        {{- if eq $encoding "int64"}}
+        msg.Payload = {{template "schema-name" .Payload}}(int64(payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+        msg.Payload = {{template "schema-name" .Payload}}(math.Float64frombits(payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -92,16 +102,6 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         if err != nil {
             return msg, err
         }
-    {{- end -}}
-
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
-        {{- /* If that's a reference, then there will be a conversion to struct to add */}}
-        {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
-        {{- else}}
-            msg.Payload = payload // No need for type conversion to reference
-        {{- end}}
     {{- end}}
 
     {{ if .Headers -}}
@@ -109,56 +109,34 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     for k, v := range bMsg.Headers {
         switch {
 
-            {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
-
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
-            {{- range  $key, $value := $headerProperties}}
+            {{- range  $key, $value := .Headers.Follow.Properties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        h := {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        h := {{$value.Type}}(v)
-                        {{- end}}
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
+                {{- $schema := $value.Follow}}
+                {{- $encoding := getHeaderEncoding $schema.Type $schema.Format $schema.ExtGoType}}
+                {{- if eq $encoding "string"}}
+                h := {{template "schema-name" $value}}(v)
+                {{- else if eq $encoding "date-time"}}
+                t, err := time.Parse(time.RFC3339, string(v))
+                if err != nil {
+                    return msg, err
+                }
+                h := {{template "schema-name" $value}}(t)
+                {{- else if eq $encoding "date"}}
+                d, err := civil.ParseDate(string(v))
+                if err != nil {
+                    return msg, err
+                }
+                h := {{template "schema-name" $value}}(d)
                 {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        msg.Headers.{{ namify $key}} = {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                        {{- end}}
-                    {{- end}}
+                var h {{template "schema-name" $value}}
+                err := json.Unmarshal(v, &h)
+                if err != nil {
+                    return msg, err
+                }
                 {{- end}}
+                msg.Headers.{{ namify $key}} = {{if isFieldPointer $headers $key $value}}&{{end}}h
             {{- end}}
         default:
             // TODO: log unknown error
@@ -175,95 +153,81 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
 func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error) {
     // TODO: implement checks on message
 
-    {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
-
-    {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
-        // Marshal payload to JSON
-        payload, err := json.Marshal(msg.Payload)
-        if err != nil {
-            return extensions.BrokerMessage{}, err
-        }
-    {{- else if eq $payload.Type "integer"}}
+    {{- /* Handle payload based on its encoding */}}
+    {{- $payload := .Payload.Follow}}
+    {{- $encoding := getPayloadEncoding $payload.Type $payload.Format $payload.ExtGoType}}
+    {{- if eq $encoding "string"}}
+        // Convert to []byte
+        payload := []byte(msg.Payload)
+    {{- else if eq $encoding "date-time"}}
+        // Convert to RFC3339 and to []byte
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
+    {{- else if eq $encoding "date"}}
+        // Convert to RFC3339 full-date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
+    {{- else if or (eq $encoding "int32") (eq $encoding "float32")}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
-            payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
+        payload := make([]byte, 4)
+        {{- if eq $encoding "int32"}}
+        binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
-            payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, uint64(msg.Payload))
+        binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- end}}
-    {{- else if eq $payload.Type "number"}}
+    {{- else if or (eq $encoding "int64") (eq $encoding "float64")}}
         // Convert to []byte{}
-        {{- if and $payload.Format (eq $payload.Format "float")}}
-            payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+        payload := make([]byte, 8)
+        {{- if eq $encoding "int64"}}
+        binary.BigEndian.PutUint64(payload, uint64(msg.Payload))
         {{- else}}
-            payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+        binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
-    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
-        // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
     {{- else}}
-        // Convert to []byte
-        payload := []byte(msg.Payload)
+        // Marshal payload to JSON
+        payload, err := json.Marshal(msg.Payload)
+        if err != nil {
+            return extensions.BrokerMessage{}, err
+        }
     {{- end}}
 
     {{/* Handle headers, if defined */}}
     {{ if .Headers -}}
 
-        {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties -}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
         {{- $headers := .Headers -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
+            {{- $schema := $value.Follow}}
+            {{- $encoding := getHeaderEncoding $schema.Type $schema.Format $schema.ExtGoType}}
+            {{- $isPointer := isFieldPointer $headers $key $value}}
 
             // Adding {{ namify $key}} header
-            {{- if $value.IsRequired }}
-                {{- $dereferenceOp := "" -}}
-                {{- if isFieldPointer $headers $key $value -}}
-                    {{- $dereferenceOp = "*" }}
-                     if msg.Headers.{{ namify $key}} == nil {
-                        return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
-                     }
-                {{- end -}}
-                {{- if eq $value.Type "object" }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
-                        return extensions.BrokerMessage{}, err
-                    }
-                    headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
-                {{- end }}
-            {{- else}}
-                if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return extensions.BrokerMessage{}, err
-                        }
-                        headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
-                    {{- end }}
+            {{- if and $value.IsRequired $isPointer}}
+                if msg.Headers.{{ namify $key}} == nil {
+                    return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                 }
-            {{- end }}
+            {{- end}}
+            {{- if not $value.IsRequired}}
+            if msg.Headers.{{namify $key}} != nil {
+            {{- end}}
+                {{- if eq $encoding "string"}}
+                headers["{{$key}}"] = []byte({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}})
+                {{- else if eq $encoding "date-time"}}
+                headers["{{$key}}"] = []byte(time.Time({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                {{- else if eq $encoding "date"}}
+                headers["{{$key}}"] = []byte(civil.Date({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).String())
+                {{- else}}
+                h{{namify $key}}, err := json.Marshal(msg.Headers.{{namify $key}})
+                if err != nil {
+                    return extensions.BrokerMessage{}, err
+                }
+                headers["{{$key}}"] = h{{namify $key}}
+                {{- end}}
+            {{- if not $value.IsRequired}}
+            }
+            {{- end}}
         {{- end}}
         {{ else -}}
         // There is no headers here
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 5b8c002..6b8281b 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -171,6 +171,36 @@ func EnableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = isDateOrDateTime
 }
 
+// GetHeaderEncoding returns how a header is encoded, based on its schema: either
+// directly ("string", "date-time" or "date") or in "json".
+func GetHeaderEncoding(schemaType, format, goType string) string {
+	switch {
+	case goType != "" || schemaType != "string":
+		return "json"
+	case isDateOrDateTimeGenerated(format):
+		return format
+	default:
+		return "string"
+	}
+}
+
+// GetPayloadEncoding returns how a payload is encoded, based on its schema: either
+// as a header or by the bytes of the number ("int32", "int64", "float32" or "float64").
+func GetPayloadEncoding(schemaType, format, goType string) string {
+	switch {
+	case goType == "" && schemaType == "integer" && format == "int32":
+		return "int32"
+	case goType == "" && schemaType == "integer":
+		return "int64"
+	case goType == "" && schemaType == "number" && format == "float":
+		return "float32"
+	case goType == "" && schemaType == "number":
+		return "float64"
+	default:
+		return GetHeaderEncoding(schemaType, format, goType)
+	}
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -178,6 +208,8 @@ func HelpersFunctions() template.FuncMap {
 		"namifyWithoutParam":        NamifyWithoutParams,
 		"namify":                    Namify,
 		"isDateOrDateTimeGenerated": isDateOrDateTimeGenerated,
+		"getHeaderEncoding":         GetHeaderEncoding,
+		"getPayloadEncoding":        GetPayloadEncoding,
 		"convertKey":                ConvertKey,
 		"snakeCase":                 strcase.ToSnake,
 		"hasField":                  HasField,
-- 
2.43.0


From 835496a32ddabf4ea4b253e979602f0acf74b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 31/79] fix: process referenced messages before merging them

---
 pkg/asyncapi/v2/message.go       | 16 +++++++++++++++-
 pkg/asyncapi/v2/specification.go | 17 ++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index efccd68..3fafbc8 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -52,6 +52,9 @@ type Message struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIDObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	// dependenciesSet indicates that the dependencies of the message are already set.
+	dependenciesSet bool
 }
 
 // generateMetadata generates the metadata for the Message and its children.
@@ -76,6 +79,12 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
+	// Prevent doing it again (or indefinitely, if the message references itself)
+	if msg.dependenciesSet {
+		return nil
+	}
+	msg.dependenciesSet = true
+
 	// Set Payload dependencies
 	if msg.Payload != nil {
 		if err := msg.Payload.setDependencies(spec); err != nil {
@@ -85,11 +94,16 @@ func (msg *Message) setDependencies(spec Specification) error {
 
 	// Add pointer to reference if there is one
 	if msg.Reference != "" {
-		refTo, err := spec.ReferenceMessage(msg.Reference)
+		refTo, refSpec, err := spec.referenceMessage(msg.Reference)
 		if err != nil {
 			return err
 		}
 		msg.ReferenceTo = refTo
+
+		// Set dependencies of the reference, as they are needed if it is merged
+		if err := refTo.setDependencies(*refSpec); err != nil {
+			return err
+		}
 	}
 
 	// Set Headers dependencies
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 0809a74..32ce780 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -152,26 +152,33 @@ func (s Specification) ReferenceParameter(ref string) (*Parameter, error) {
 
 // ReferenceMessage returns the Message struct corresponding to the given reference.
 func (s Specification) ReferenceMessage(ref string) (*Message, error) {
+	msg, _, err := s.referenceMessage(ref)
+	return msg, err
+}
+
+// referenceMessage returns the message corresponding to the given reference, with
+// the specification where it is.
+func (s Specification) referenceMessage(ref string) (*Message, *Specification, error) {
 	// Get object pointed by reference
-	obj, err := s.reference(ref)
+	obj, spec, err := s.referenceWithSpec(ref)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Cast to message
 	msg, ok := obj.(*Message)
 	if !ok {
-		return nil, fmt.Errorf(
+		return nil, nil, fmt.Errorf(
 			"%w: cannot cast %q into 'Message' (type is %q)",
 			ErrInvalidReference, ref, reflect.TypeOf(obj))
 	}
 
 	// Check that message is not nil
 	if msg == nil {
-		return nil, fmt.Errorf("%w: empty target for message reference %q", ErrInvalidReference, ref)
+		return nil, nil, fmt.Errorf("%w: empty target for message reference %q", ErrInvalidReference, ref)
 	}
 
-	return msg, nil
+	return msg, spec, nil
 }
 
 // ReferenceSchema returns the Any struct corresponding to the given reference.
-- 
2.43.0


From 24229e831c8a8e059a7fd41c042bc4d74281886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 32/79] fix: name the references that cannot be resolved, and
 refer only to what has a type

---
 pkg/asyncapi/v2/components.go                 |  1 +
 pkg/asyncapi/v2/schema.go                     | 40 +++++-----------
 pkg/asyncapi/v2/specification.go              |  9 +++-
 pkg/asyncapi/v3/components.go                 |  1 +
 pkg/asyncapi/v3/schema.go                     | 48 +++++--------------
 pkg/asyncapi/v3/specification.go              |  9 +++-
 .../generators/v2/templates/schema_name.tmpl  |  3 ++
 .../generators/v3/templates/schema_name.tmpl  |  3 ++
 8 files changed, 50 insertions(+), 64 deletions(-)

diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index f6d1be0..4b07c50 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -20,6 +20,7 @@ func (c *Components) generateMetadata() error {
 		if err := schema.generateMetadata(name+"_Schema", false); err != nil {
 			return err
 		}
+		schema.isComponent = true
 	}
 
 	// For all messages, generate message metadata
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index cbbd32a..805c565 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -2,7 +2,6 @@ package asyncapiv2
 
 import (
 	"slices"
-	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
@@ -46,6 +45,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// isComponent indicates that the schema is directly in the components.
+	isComponent bool
+
 	// dependenciesSet indicates that the dependencies of the schema are already set.
 	dependenciesSet bool
 
@@ -323,9 +325,8 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 // referenceFrom returns the schema at the given path inside the schema, or nil
-// if there is none. Properties can be given directly by their names.
-//
-//nolint:cyclop // Not necessary to reduce statements and cyclop
+// if there is none (or if there would be no type for it, as inside 'allOf' for instance).
+// Properties can be given directly by their names.
 func (s *Schema) referenceFrom(ref []string) *Schema {
 	if s == nil || len(ref) == 0 {
 		return s
@@ -343,32 +344,11 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 		return s.AdditionalProperties.referenceFrom(ref[1:])
 	}
 
-	if len(ref) < 2 {
-		return nil
-	}
-
-	switch ref[0] {
-	case "properties":
+	if len(ref) >= 2 && ref[0] == "properties" {
 		return s.Properties[ref[1]].referenceFrom(ref[2:])
-	case "allOf":
-		return schemaAt(s.AllOf, ref[1]).referenceFrom(ref[2:])
-	case "anyOf":
-		return schemaAt(s.AnyOf, ref[1]).referenceFrom(ref[2:])
-	case "oneOf":
-		return schemaAt(s.OneOf, ref[1]).referenceFrom(ref[2:])
-	default:
-		return nil
 	}
-}
 
-// schemaAt returns the schema at the given index, or nil if there is none.
-func schemaAt(schemas []*Schema, index string) *Schema {
-	i, err := strconv.Atoi(index)
-	if err != nil || i < 0 || i >= len(schemas) {
-		return nil
-	}
-
-	return schemas[i]
+	return nil
 }
 
 // MergeWith merges the given Schema structure with another one
@@ -495,6 +475,12 @@ func (s *Schema) mergeable(isReferenced bool) *Schema {
 	return &copied
 }
 
+// HasOwnType returns true if there is a type generated for the schema, that can
+// be used when it is referenced.
+func (s *Schema) HasOwnType() bool {
+	return s.isComponent || (s.Type == SchemaTypeIsObject.String() && s.ExtGoType == "")
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 32ce780..0c56f5f 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -251,6 +251,7 @@ func (s Specification) reference(ref string) (any, error) {
 func (s Specification) referenceWithSpec(ref string) (any, *Specification, error) {
 	spec := &s
 	visited := make(map[any]struct{})
+	var kind reflect.Type
 
 	for next := ref; ; {
 		// Get the object from the specification where it is
@@ -263,9 +264,15 @@ func (s Specification) referenceWithSpec(ref string) (any, *Specification, error
 			return nil, nil, err
 		}
 
+		// Check that what is referenced by another reference is of the same kind
+		if next != ref && (reflect.TypeOf(obj) != kind || reflect.ValueOf(obj).IsNil()) {
+			return nil, nil, fmt.Errorf("%w: incorrect target for reference %q, from %q", ErrInvalidReference, next, ref)
+		}
+		kind = reflect.TypeOf(obj)
+
 		// Check that this is not a loop
 		if _, exists := visited[obj]; exists {
-			return nil, nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
+			return nil, nil, fmt.Errorf("%w: %q is a circular reference, from %q", ErrInvalidReference, next, ref)
 		}
 		visited[obj] = struct{}{}
 
diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index b753307..8997bee 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -41,6 +41,7 @@ func (c *Components) generateMetadata() error {
 		if err := schema.generateMetadata("", name+"_Schema", nil, false); err != nil {
 			return err
 		}
+		schema.isComponent = true
 	}
 
 	// Generate mapped structured metadata
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index dcff339..d1aa3c7 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -3,7 +3,6 @@ package asyncapiv3
 import (
 	"maps"
 	"slices"
-	"strconv"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
@@ -64,6 +63,9 @@ type Schema struct {
 	Name        string  `json:"-"`
 	ReferenceTo *Schema `json:"-"`
 
+	// isComponent indicates that the schema is directly in the components.
+	isComponent bool
+
 	// dependenciesSet indicates that the dependencies of the schema are already set.
 	dependenciesSet bool
 
@@ -323,9 +325,8 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 // referenceFrom returns the schema at the given path inside the schema, or nil
-// if there is none. Properties can be given directly by their names.
-//
-//nolint:cyclop // Not necessary to reduce statements and cyclop
+// if there is none (or if there would be no type for it, as inside 'allOf' for instance).
+// Properties can be given directly by their names.
 func (s *Schema) referenceFrom(ref []string) *Schema {
 	if s == nil || len(ref) == 0 {
 		return s
@@ -341,42 +342,13 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 		return s.Items.referenceFrom(ref[1:])
 	case "additionalProperties":
 		return s.AdditionalProperties.referenceFrom(ref[1:])
-	case "not":
-		return s.Not.referenceFrom(ref[1:])
 	}
 
-	if len(ref) < 2 {
-		return nil
-	}
-
-	switch ref[0] {
-	case "properties":
+	if len(ref) >= 2 && ref[0] == "properties" {
 		return s.Properties[ref[1]].referenceFrom(ref[2:])
-	case "patternProperties":
-		return s.PatternProperties[ref[1]].referenceFrom(ref[2:])
-	case "contains":
-		return schemaAt(s.Contains, ref[1]).referenceFrom(ref[2:])
-	case "additionalItems":
-		return schemaAt(s.AdditionalItems, ref[1]).referenceFrom(ref[2:])
-	case "allOf":
-		return schemaAt(s.AllOf, ref[1]).referenceFrom(ref[2:])
-	case "anyOf":
-		return schemaAt(s.AnyOf, ref[1]).referenceFrom(ref[2:])
-	case "oneOf":
-		return schemaAt(s.OneOf, ref[1]).referenceFrom(ref[2:])
-	default:
-		return nil
-	}
-}
-
-// schemaAt returns the schema at the given index, or nil if there is none.
-func schemaAt(schemas []*Schema, index string) *Schema {
-	i, err := strconv.Atoi(index)
-	if err != nil || i < 0 || i >= len(schemas) {
-		return nil
 	}
 
-	return schemas[i]
+	return nil
 }
 
 // MergeWith merges the given Schema structure with another one
@@ -543,6 +515,12 @@ func cloneSchemasMap(schemas map[string]*Schema) map[string]*Schema {
 	return cloned
 }
 
+// HasOwnType returns true if there is a type generated for the schema, that can
+// be used when it is referenced.
+func (s *Schema) HasOwnType() bool {
+	return s.isComponent || (s.Type == SchemaTypeIsObject.String() && s.ExtGoType == "")
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 729ce0d..3c28ec5 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -719,6 +719,7 @@ func (s Specification) reference(ref string) (any, error) {
 func (s Specification) referenceWithSpec(ref string) (any, *Specification, error) {
 	spec := &s
 	visited := make(map[any]struct{})
+	var kind reflect.Type
 
 	for next := ref; ; {
 		// Get the object from the specification where it is
@@ -731,9 +732,15 @@ func (s Specification) referenceWithSpec(ref string) (any, *Specification, error
 			return nil, nil, err
 		}
 
+		// Check that what is referenced by another reference is of the same kind
+		if next != ref && (reflect.TypeOf(obj) != kind || reflect.ValueOf(obj).IsNil()) {
+			return nil, nil, fmt.Errorf("%w: incorrect target for reference %q, from %q", ErrInvalidReference, next, ref)
+		}
+		kind = reflect.TypeOf(obj)
+
 		// Check that this is not a loop
 		if _, exists := visited[obj]; exists {
-			return nil, nil, fmt.Errorf("%w: %q is a circular reference", ErrInvalidReference, ref)
+			return nil, nil, fmt.Errorf("%w: %q is a circular reference, from %q", ErrInvalidReference, next, ref)
 		}
 		visited[obj] = struct{}{}
 
diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 79c6940..f0b156e 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -68,6 +68,9 @@ struct {
 }
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
+{{- else if and .ReferenceTo (not .Follow.HasOwnType) -}}
+{{- template "schema-name" .Follow -}}
+
 {{- else if .ReferenceTo -}}
 {{ namify .Follow.Name }}
 
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 03bc71a..3b445c5 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -68,6 +68,9 @@ struct {
 }
 
 {{- /* ---------------------------- Reference --------------------------- */ -}}
+{{- else if and .ReferenceTo (not .Follow.HasOwnType) -}}
+{{- template "schema-name" .Follow -}}
+
 {{- else if .ReferenceTo -}}
 {{ namify .Follow.Name }}
 
-- 
2.43.0


From 58f41b3a1ff1bc6d906b992df9b9a4828619f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 33/79] fix: process traits, and their correlation IDs, before
 what they apply to

---
 pkg/asyncapi/v3/components.go    | 29 +++++++++++++++--------------
 pkg/asyncapi/v3/message_trait.go |  8 ++++++++
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 8997bee..00ac801 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -195,6 +195,21 @@ func (c *Components) generateMetadataFromMaps() error {
 
 //nolint:cyclop,funlen,gocognit,gocyclo
 func (c *Components) setDependenciesFromMaps(spec Specification) error {
+	// Set operation traits dependencies
+	// NOTE: traits should be processed before what they apply to
+	for _, entity := range c.OperationTraits {
+		if err := entity.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
+	// Set message traits dependencies
+	for _, entity := range c.MessageTraits {
+		if err := entity.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// Set servers dependencies
 	for _, entity := range c.Servers {
 		if err := entity.setDependencies(spec); err != nil {
@@ -265,20 +280,6 @@ func (c *Components) setDependenciesFromMaps(spec Specification) error {
 		}
 	}
 
-	// Set operation traits dependencies
-	for _, entity := range c.OperationTraits {
-		if err := entity.setDependencies(spec); err != nil {
-			return err
-		}
-	}
-
-	// Set message traits dependencies
-	for _, entity := range c.MessageTraits {
-		if err := entity.setDependencies(spec); err != nil {
-			return err
-		}
-	}
-
 	// Set server bindings dependencies
 	for _, entity := range c.ServerBindings {
 		if err := entity.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 821a2ef..a95fdaf 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -50,6 +50,9 @@ func (mt *MessageTrait) generateMetadata(parentName, name string, number *int) e
 		return err
 	}
 
+	// Generate correlation ID metadata
+	mt.CorrelationID.generateMetadata(mt.Name, "")
+
 	// Generate tags metadata
 	for i, t := range mt.Tags {
 		t.generateMetadata(mt.Name, "", &i)
@@ -91,6 +94,11 @@ func (mt *MessageTrait) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := mt.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Set tags dependencies
 	for _, t := range mt.Tags {
 		if err := t.setDependencies(spec); err != nil {
-- 
2.43.0


From 30e76ce9f72de64d25a635e7345d143193e0cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 34/79] fix: generate the types of the channels of the
 components

---
 pkg/codegen/generators/v3/templates/types.tmpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index d247648..b81660e 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -56,7 +56,8 @@ func (e *Error) Error() string {
     return fmt.Sprintf("channel %q: err %v", e.Channel, e.Err)
 }
 
-{{range $key, $value := .Channels -}}
+{{range $channels := args .Channels .Components.Channels}}
+{{- range $key, $value := $channels -}}
 
 {{- if $value.Parameters -}}
 // {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
@@ -72,6 +73,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 {{template "message" $value}}
 {{end -}}
 
+{{- end}}
 {{- end}}
 
 {{/* NOTE: No need to generate messages from operation as they are only references */}}
-- 
2.43.0


From 6b468f46490725020206853fcaaab6361a510f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 35/79] fix: import what the messages of channels and the
 additional properties need, in a stable order

---
 pkg/asyncapi/v2/extensions.go | 70 ++++++++++++++++++++++++++++++-----
 pkg/asyncapi/v3/extensions.go | 49 +++++++++++++++++++++---
 2 files changed, 103 insertions(+), 16 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..4ec5162 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv2
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -52,6 +53,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process additional properties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -68,6 +76,46 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in this message into the imports map.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
+// goTypeImports collects custom imports in this channel into the imports map.
+func (c *Channel) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	for _, op := range []*Operation{c.Subscribe, c.Publish} {
+		if op == nil {
+			continue
+		}
+
+		if err := op.Message.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
+	for _, p := range c.Parameters {
+		if p.Schema != nil {
+			if err := p.Schema.goTypeImports(imports); err != nil {
+				return fmt.Errorf("parameters custom import error: %w", err)
+			}
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -82,16 +130,8 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
-		}
-
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
 	}
 
@@ -103,6 +143,12 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 		}
 	}
 
+	for _, v := range s.Channels {
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/channels %w", err)
+		}
+	}
+
 	return importsMapToList(importsSet), nil
 }
 
@@ -114,5 +160,9 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+
+	// Always give them in the same order
+	slices.Sort(imports)
+
 	return imports
 }
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..e08bee4 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -52,6 +53,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process additional properties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -68,6 +76,23 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in this message into the imports map.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -82,15 +107,23 @@ func (s Specification) CustomImports() ([]string, error) {
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
+		}
+	}
+
+	for _, v := range s.Components.Channels {
+		for _, msg := range v.Messages {
+			if err := msg.goTypeImports(importsSet); err != nil {
+				return nil, fmt.Errorf("/components/channels %w", err)
 			}
 		}
+	}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+	for _, v := range s.Channels {
+		for _, msg := range v.Messages {
+			if err := msg.goTypeImports(importsSet); err != nil {
+				return nil, fmt.Errorf("/channels %w", err)
 			}
 		}
 	}
@@ -108,5 +141,9 @@ func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string
 		}
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
+
+	// Always give them in the same order
+	slices.Sort(imports)
+
 	return imports
 }
-- 
2.43.0


From d2f7a1e23e978f591731095c8a7761ae222a9d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 36/79] fix: generate the referenced operations

---
 pkg/asyncapi/v3/specification.go    | 3 +++
 pkg/codegen/generators/v3/common.go | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 3c28ec5..e84620d 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -179,6 +179,9 @@ func (s *Specification) setDependencies() error {
 // of 'reception' operations inside the Specification.
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
+		// Use the referenced operation if there is one
+		op = op.Follow()
+
 		// Check that the publish channel is present
 		if op.Action.IsSend() {
 			sendCount++
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..328348a 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,11 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Use the referenced operation if there is one, with its own name
+		followed := *op.Follow()
+		followed.Name = op.Name
+		op = &followed
+
 		// Add channel to receive channels based on operation action and side
 		if isControllerReceiveOperation(side, op) {
 			ao.Receive[name] = op
-- 
2.43.0


From 3d66ed7952f23c4560092e5e9a09c02994cac00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 37/79] fix: resolve the references of the tags of operations

---
 pkg/asyncapi/v3/operation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8844968..9313c36 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -118,6 +118,13 @@ func (op *Operation) setDependencies(spec Specification) error {
 		}
 	}
 
+	// Set tags dependencies
+	for _, t := range op.Tags {
+		if err := t.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// Set external doc dependencies if there is one
 	if err := op.ExternalDocs.setDependencies(spec); err != nil {
 		return err
-- 
2.43.0


From 57a43b3daeaaacd5392e7b0b980ed5cd6a1c2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 38/79] fix: generate the types of objects that are in arrays
 of arrays

---
 pkg/codegen/generators/v2/templates/helpers.go | 10 +++++-----
 pkg/codegen/generators/v3/templates/helpers.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index b0db257..bd6c11d 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -25,15 +25,15 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 		allSchemas = append(allSchemas, s.AdditionalProperties)
 	}
 
-	// Only keep object schemas
+	// Only keep object schemas, that can be inside arrays
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index dcd447d..a5a16e2 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -25,15 +25,15 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 		allSchemas = append(allSchemas, s.AdditionalProperties)
 	}
 
-	// Only keep object schemas
+	// Only keep object schemas, that can be inside arrays
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
-- 
2.43.0


From 616aef60a9bc064e8236160bfac42149c84de0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 39/79] fix: read and write the additional properties as JSON,
 whatever their keys and types

---
 .../marshaling/additional_properties.tmpl     | 66 ++++++++++-----
 .../marshaling/additional_properties.tmpl     | 82 +++++++++++--------
 2 files changed, 96 insertions(+), 52 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..c7ef99a 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -1,8 +1,8 @@
 {{define "marshaling-additional-properties" -}}
 
 // MarshalJSON marshals the schema into JSON with support for additional properties.
-func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    type alias {{ .Name }}
+func (t {{ namify .Name }}) MarshalJSON() ([]byte, error) {
+    type alias {{ namify .Name }}
 
     // Copy original into alias and marshal the alias to avoid JSON marshal recursion
     b, err := json.Marshal(alias(t))
@@ -13,9 +13,27 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
+    // When there are no properties, we cant start with a separator
+    needSeparator := len(b) > 1
+
     // Add additional properties
     for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
+        if needSeparator {
+            b = append(b, ',')
+        }
+        needSeparator = true
+
+        kBytes, err := json.Marshal(k)
+        if err != nil {
+            return nil, err
+        }
+        b = append(append(b, kBytes...), ':')
+
+        vBytes, err := json.Marshal(v)
+        if err != nil {
+            return nil, err
+        }
+        b = append(b, vBytes...)
     }
 
     // Close JSON and return
@@ -23,35 +41,45 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
 }
 
 // UnmarshalJSON unmarshals schema from JSON with support for additional properties.
-func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    type alias {{ .Name }}
+func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
+    type alias {{ namify .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
 
-    // Unmarshal into the alias then copy the alias content into the original
-    // object. This is done to avoid JSON unmarshal recursion.
-    var a alias
-    if err := json.Unmarshal(data, &a);  err != nil {
-        return err
-    }
-    *t = {{ .Name }}(a)
-
-    // Get all fields that are additional and add them to the AdditionalProperties field.
-    t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
-    for k, v := range m {
+    // Get all fields that are additional, and keep only the other ones
+    additionalProperties := make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
+    for k, raw := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
                 case "{{convertKey $key}}":
                     continue
             {{ end -}}
-        default:
-            t.AdditionalProperties[k] = v
         }
+
+        var v {{template "schema-name" .AdditionalProperties}}
+        if err := json.Unmarshal(raw, &v);  err != nil {
+            return err
+        }
+        additionalProperties[k] = v
+        delete(m, k)
+    }
+
+    // Unmarshal the other ones into the alias then copy the alias content into the
+    // original object. This is done to avoid JSON unmarshal recursion.
+    properties, err := json.Marshal(m)
+    if err != nil {
+        return err
+    }
+    var a alias
+    if err := json.Unmarshal(properties, &a);  err != nil {
+        return err
     }
+    *t = {{ namify .Name }}(a)
+    t.AdditionalProperties = additionalProperties
 
     return nil
 }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..c7ef99a 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -1,8 +1,8 @@
 {{define "marshaling-additional-properties" -}}
 
 // MarshalJSON marshals the schema into JSON with support for additional properties.
-func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    type alias {{ .Name }}
+func (t {{ namify .Name }}) MarshalJSON() ([]byte, error) {
+    type alias {{ namify .Name }}
 
     // Copy original into alias and marshal the alias to avoid JSON marshal recursion
     b, err := json.Marshal(alias(t))
@@ -13,57 +13,73 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
-	// When there are no properties, we cant start with a separator
-	needSeparator := len(b) > 1
+    // When there are no properties, we cant start with a separator
+    needSeparator := len(b) > 1
 
-	// Add additional properties
-	for k, v := range t.AdditionalProperties {
-    	if needSeparator {
-    	    b = append(b, ',')
-    	}
-    	needSeparator = true
-	
-    	vBytes, err := json.Marshal(v)
-    	if err != nil {
-    	    return nil, err
-    	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
-	}
+    // Add additional properties
+    for k, v := range t.AdditionalProperties {
+        if needSeparator {
+            b = append(b, ',')
+        }
+        needSeparator = true
+
+        kBytes, err := json.Marshal(k)
+        if err != nil {
+            return nil, err
+        }
+        b = append(append(b, kBytes...), ':')
+
+        vBytes, err := json.Marshal(v)
+        if err != nil {
+            return nil, err
+        }
+        b = append(b, vBytes...)
+    }
 
     // Close JSON and return
     return append(b, []byte("}")...) , nil
 }
 
 // UnmarshalJSON unmarshals schema from JSON with support for additional properties.
-func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    type alias {{ .Name }}
+func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
+    type alias {{ namify .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
 
-    // Unmarshal into the alias then copy the alias content into the original
-    // object. This is done to avoid JSON unmarshal recursion.
-    var a alias
-    if err := json.Unmarshal(data, &a);  err != nil {
-        return err
-    }
-    *t = {{ .Name }}(a)
-
-    // Get all fields that are additional and add them to the AdditionalProperties field.
-    t.AdditionalProperties = make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
-    for k, v := range m {
+    // Get all fields that are additional, and keep only the other ones
+    additionalProperties := make(map[string]{{template "schema-name" .AdditionalProperties}}, len(m))
+    for k, raw := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
                 case "{{convertKey $key}}":
                     continue
             {{ end -}}
-        default:
-            t.AdditionalProperties[k] = v
         }
+
+        var v {{template "schema-name" .AdditionalProperties}}
+        if err := json.Unmarshal(raw, &v);  err != nil {
+            return err
+        }
+        additionalProperties[k] = v
+        delete(m, k)
+    }
+
+    // Unmarshal the other ones into the alias then copy the alias content into the
+    // original object. This is done to avoid JSON unmarshal recursion.
+    properties, err := json.Marshal(m)
+    if err != nil {
+        return err
+    }
+    var a alias
+    if err := json.Unmarshal(properties, &a);  err != nil {
+        return err
     }
+    *t = {{ namify .Name }}(a)
+    t.AdditionalProperties = additionalProperties
 
     return nil
 }
-- 
2.43.0


From f283f580b770e448653fbb1590833f6391322ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 40/79] fix: generate the types of dates among the components

---
 .../generators/v2/templates/marshaling/time.tmpl   | 14 +++++++-------
 .../generators/v3/templates/marshaling/time.tmpl   | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..e4c73ff 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,17 +1,17 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
-func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+// MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
+func (t {{ namify .Name }}) MarshalJSON() ([]byte, error) {
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
-func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
+func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
 
-    *t = {{ .Name }}(timeFormat)
+    *t = {{ namify .Name }}(timeFormat)
     return nil
 }
 {{- end}}
\ No newline at end of file
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..e4c73ff 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,17 +1,17 @@
 {{define "marshaling-time" -}}
-// MarshalJSON will override the marshal as this is not a normal 'time.Time' type
-func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+// MarshalJSON will override the marshal as this is not a normal '{{template "schema-name" .}}' type
+func (t {{ namify .Name }}) MarshalJSON() ([]byte, error) {
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
-// UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
-func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+// UnmarshalJSON will override the unmarshal as this is not a normal '{{template "schema-name" .}}' type
+func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
 
-    *t = {{ .Name }}(timeFormat)
+    *t = {{ namify .Name }}(timeFormat)
     return nil
 }
 {{- end}}
\ No newline at end of file
-- 
2.43.0


From e1174662e496cc5d6b06b7e1993ae397af45f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 41/79] fix: generate headers without properties, and types
 with their Go names

---
 pkg/codegen/generators/v2/templates/message.tmpl           | 2 +-
 pkg/codegen/generators/v2/templates/schema_definition.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/message.tmpl           | 2 +-
 pkg/codegen/generators/v3/templates/schema_definition.tmpl | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 7a7728d..f0371ec 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -97,7 +97,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end}}
 
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
     // Get each headers from broker message
     for k, v := range bMsg.Headers {
         switch {
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index eab7057..1b1bb4e 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -32,7 +32,7 @@ type {{ namify .Name }} struct {
 {{- /* ----------------------------- Others ----------------------------- */ -}}
 {{- else -}}
 
-type {{ .Name }} {{template "schema-name" .}}
+type {{ namify .Name }} {{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if isDateOrDateTimeGenerated .Format -}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 5739722..8f15e99 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -104,7 +104,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end}}
 
-    {{ if .Headers -}}
+    {{ if and .Headers .Headers.Follow.Properties -}}
     // Get each headers from broker message
     for k, v := range bMsg.Headers {
         switch {
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index eab7057..1b1bb4e 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -32,7 +32,7 @@ type {{ namify .Name }} struct {
 {{- /* ----------------------------- Others ----------------------------- */ -}}
 {{- else -}}
 
-type {{ .Name }} {{template "schema-name" .}}
+type {{ namify .Name }} {{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
 {{- if isDateOrDateTimeGenerated .Format -}}
-- 
2.43.0


From c5e64027e331e73d5bafe78d8c68f7c298767330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 42/79] fix: enforce zero bounds, and give bounds of integers
 without exponent or fraction

---
 pkg/asyncapi/schema.go            | 24 +++++++++----------
 pkg/codegen/generators/helpers.go | 38 +++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index d264930..7b69bc0 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -5,12 +5,12 @@ package asyncapi
 type Validations[T any] struct {
 	Required         []string `json:"required"`
 	MultipleOf       []string `json:"multipleOf"`
-	Maximum          float64  `json:"maximum"`
-	ExclusiveMaximum float64  `json:"exclusiveMaximum"`
-	Minimum          float64  `json:"minimum"`
-	ExclusiveMinimum float64  `json:"exclusiveMinimum"`
-	MaxLength        uint     `json:"maxLength"`
-	MinLength        uint     `json:"minLength"`
+	Maximum          *float64 `json:"maximum"`
+	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
+	Minimum          *float64 `json:"minimum"`
+	ExclusiveMinimum *float64 `json:"exclusiveMinimum"`
+	MaxLength        *uint    `json:"maxLength"`
+	MinLength        *uint    `json:"minLength"`
 	Pattern          string   `json:"pattern"`
 	MaxItems         uint     `json:"maxItems"`
 	MinItems         uint     `json:"minItems"`
@@ -37,22 +37,22 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.MultipleOf) > 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
-	if newV.Maximum != 0 {
+	if newV.Maximum != nil {
 		v.Maximum = newV.Maximum
 	}
-	if newV.ExclusiveMaximum != 0 {
+	if newV.ExclusiveMaximum != nil {
 		v.ExclusiveMaximum = newV.ExclusiveMaximum
 	}
-	if newV.Minimum != 0 {
+	if newV.Minimum != nil {
 		v.Minimum = newV.Minimum
 	}
-	if newV.ExclusiveMinimum != 0 {
+	if newV.ExclusiveMinimum != nil {
 		v.ExclusiveMinimum = newV.ExclusiveMinimum
 	}
-	if newV.MaxLength != 0 {
+	if newV.MaxLength != nil {
 		v.MaxLength = newV.MaxLength
 	}
-	if newV.MinLength != 0 {
+	if newV.MinLength != nil {
 		v.MinLength = newV.MinLength
 	}
 	if newV.Pattern != "" {
diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 7617e01..575d9b5 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,19 +2,39 @@ package generators
 
 import (
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
 
-func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
-	if value != 0 {
-		return append(directives, fmt.Sprintf("%s=%g", tagName, value))
+func appendLengthDirective(directives []string, tagName string, value *uint) []string {
+	if value != nil {
+		return append(directives, fmt.Sprintf("%s=%d", tagName, *value))
 	}
 	return directives
 }
 
+// appendBoundDirective appends the directive for a numeric bound, if there is one.
+// The bound of an integer is rounded to an equivalent integer.
+func appendBoundDirective(
+	directives []string, tagName string, value *float64, schemaType string, round func(float64) float64,
+) []string {
+	if value == nil {
+		return directives
+	}
+
+	bound := *value
+	if schemaType == "integer" {
+		bound = round(bound)
+	}
+
+	// NOTE: no exponent, as it is not accepted on integers
+	return append(directives, tagName+"="+strconv.FormatFloat(bound, 'f', -1, 64))
+}
+
 // GenerateJSONTags returns the "json" tag for a given field in a struct, based on the asyncapi contract.
 func GenerateJSONTags[T any](schema asyncapi.Validations[T], field string) string {
 	directives := []string{
@@ -44,12 +64,12 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 		directives = append(directives, "required")
 	}
 
-	directives = appendDirectiveIfDefined(directives, "min", float64(schema.MinLength))
-	directives = appendDirectiveIfDefined(directives, "max", float64(schema.MaxLength))
-	directives = appendDirectiveIfDefined(directives, "gte", schema.Minimum)
-	directives = appendDirectiveIfDefined(directives, "lte", schema.Maximum)
-	directives = appendDirectiveIfDefined(directives, "gt", schema.ExclusiveMinimum)
-	directives = appendDirectiveIfDefined(directives, "lt", schema.ExclusiveMaximum)
+	directives = appendLengthDirective(directives, "min", schema.MinLength)
+	directives = appendLengthDirective(directives, "max", schema.MaxLength)
+	directives = appendBoundDirective(directives, "gte", schema.Minimum, schemaType, math.Ceil)
+	directives = appendBoundDirective(directives, "lte", schema.Maximum, schemaType, math.Floor)
+	directives = appendBoundDirective(directives, "gt", schema.ExclusiveMinimum, schemaType, math.Floor)
+	directives = appendBoundDirective(directives, "lt", schema.ExclusiveMaximum, schemaType, math.Ceil)
 
 	if schema.UniqueItems {
 		directives = append(directives, "unique")
-- 
2.43.0


From 0fbc51ace4baa836ddda85c6ddeee5e70adb289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 43/79] fix: validation of referenced properties depends on the
 type of the reference

---
 pkg/codegen/generators/v2/templates/schema_definition.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/schema_definition.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 1b1bb4e..4a98b26 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 1b1bb4e..4a98b26 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0


From b9cda7b53ee2c59aac1b4427f21175959c6ec151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 44/79] fix: quote the tags of structures, and escape the
 parameters of validations

---
 pkg/codegen/generators/helpers.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 575d9b5..713b1f4 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -45,7 +45,7 @@ func GenerateJSONTags[T any](schema asyncapi.Validations[T], field string) strin
 		directives = append(directives, "omitempty")
 	}
 
-	return fmt.Sprintf("json:\"%s\"", strings.Join(directives, ","))
+	return "json:" + quoteTag(strings.Join(directives, ","))
 }
 
 func shouldAddOmitEmpty[T any](schema asyncapi.Validations[T]) bool {
@@ -79,7 +79,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	if schema.Const != nil {
 		if cStr, ok := schema.Const.(string); ok {
 			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, fmt.Sprintf("eq=%s", cStr))
+			directives = append(directives, "eq="+escapeParam(cStr))
 		}
 	}
 
@@ -88,12 +88,23 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 			directives = append([]string{"omitempty"}, directives...)
 		}
 
-		return fmt.Sprintf(" validate:\"%s\"", strings.Join(directives, ","))
+		return " validate:" + quoteTag(strings.Join(directives, ","))
 	} else {
 		return ""
 	}
 }
 
+// quoteTag quotes the value of a struct tag, which can then be used in a raw string.
+func quoteTag(value string) string {
+	return strings.ReplaceAll(strconv.Quote(value), "`", "\\x60")
+}
+
+// escapeParam replaces the characters that have a meaning between the directives
+// of a "validate" tag.
+func escapeParam(param string) string {
+	return strings.NewReplacer(",", "0x2C", "|", "0x7C").Replace(param)
+}
+
 // singleQuote prepends and appends a single quote to the provided string.
 func singleQuote(s string) string {
 	return "'" + s + "'"
@@ -101,16 +112,23 @@ func singleQuote(s string) string {
 
 func appendEnumDirectives[T any](schema asyncapi.Validations[T], directives []string) []string {
 	if len(schema.Enum) > 0 {
-		var enumsStr []string
+		var enumsStr, equalsStr []string
+		hasSingleQuote := false
 		for _, e := range schema.Enum {
 			if eStr, ok := e.(string); ok {
 				// single quotes are mandatory in order to handle values with spaces
-				enumsStr = append(enumsStr, singleQuote(eStr))
+				enumsStr = append(enumsStr, singleQuote(escapeParam(eStr)))
+				equalsStr = append(equalsStr, "eq="+escapeParam(eStr))
+				hasSingleQuote = hasSingleQuote || strings.Contains(eStr, "'")
 			}
 		}
 
 		// Only generate enum if all elements are string, otherwise this is unsupported
 		if len(schema.Enum) == len(enumsStr) {
+			if hasSingleQuote {
+				// There can't be any single quote inside a "oneof"
+				return append(directives, strings.Join(equalsStr, "|"))
+			}
 			directives = append(directives, fmt.Sprintf("oneof=%s", strings.Join(enumsStr, " ")))
 		}
 	}
-- 
2.43.0


From 6b8f99ae4868129e377dc13ccda328cfcb5c5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 45/79] fix: quote the names, versions and addresses of the
 document in the generated code

---
 pkg/codegen/generators/v2/templates/controller.tmpl    |  2 +-
 .../v2/templates/marshaling/additional_properties.tmpl |  2 +-
 pkg/codegen/generators/v2/templates/message.tmpl       | 10 +++++-----
 pkg/codegen/generators/v2/templates/types.tmpl         |  4 ++--
 pkg/codegen/generators/v3/templates/controller.tmpl    |  2 +-
 .../v3/templates/marshaling/additional_properties.tmpl |  2 +-
 pkg/codegen/generators/v3/templates/message.tmpl       | 10 +++++-----
 pkg/codegen/generators/v3/templates/types.tmpl         |  4 ++--
 8 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 2f49e7d..cd4a828 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, path string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{printf "%q" .Version}})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, path)
 }
diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index c7ef99a..08069e2 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -55,7 +55,7 @@ func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
     for k, raw := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
-                case "{{convertKey $key}}":
+                case {{printf "%q" (convertKey $key)}}:
                     continue
             {{ end -}}
         }
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index f0371ec..45d5c2b 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -105,7 +105,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := .Headers.Follow.Properties}}
-            case k == "{{$key}}": // Retrieving {{namify $key}} header
+            case k == {{printf "%q" $key}}: // Retrieving {{namify $key}} header
                 {{- $schema := $value.Follow}}
                 {{- $encoding := getHeaderEncoding $schema.Type $schema.Format $schema.ExtGoType}}
                 {{- if eq $encoding "string"}}
@@ -205,17 +205,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             if msg.Headers.{{namify $key}} != nil {
             {{- end}}
                 {{- if eq $encoding "string"}}
-                headers["{{$key}}"] = []byte({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}})
+                headers[{{printf "%q" $key}}] = []byte({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}})
                 {{- else if eq $encoding "date-time"}}
-                headers["{{$key}}"] = []byte(time.Time({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                headers[{{printf "%q" $key}}] = []byte(time.Time({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339))
                 {{- else if eq $encoding "date"}}
-                headers["{{$key}}"] = []byte(civil.Date({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).String())
+                headers[{{printf "%q" $key}}] = []byte(civil.Date({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).String())
                 {{- else}}
                 h{{namify $key}}, err := json.Marshal(msg.Headers.{{namify $key}})
                 if err != nil {
                     return extensions.BrokerMessage{}, err
                 }
-                headers["{{$key}}"] = h{{namify $key}}
+                headers[{{printf "%q" $key}}] = h{{namify $key}}
                 {{- end}}
             {{- if not $value.IsRequired}}
             }
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index c4ac5bd..1388f31 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{printf "%q" .Info.Version}}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
-    {{ namifyWithoutParam .Name }}Path = "{{$key}}"
+    {{ namifyWithoutParam .Name }}Path = {{printf "%q" $key}}
 {{- end}}
 )
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 48f28b8..40d2eb5 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, addr string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{printf "%q" .Version}})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, addr)
 }
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index c7ef99a..08069e2 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -55,7 +55,7 @@ func (t *{{ namify .Name }}) UnmarshalJSON(data []byte) error {
     for k, raw := range m {
         switch k {
             {{ range $key, $value := .Properties -}}
-                case "{{convertKey $key}}":
+                case {{printf "%q" (convertKey $key)}}:
                     continue
             {{ end -}}
         }
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 8f15e99..c8daf19 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -112,7 +112,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
             {{- range  $key, $value := .Headers.Follow.Properties}}
-            case k == "{{$key}}": // Retrieving {{namify $key}} header
+            case k == {{printf "%q" $key}}: // Retrieving {{namify $key}} header
                 {{- $schema := $value.Follow}}
                 {{- $encoding := getHeaderEncoding $schema.Type $schema.Format $schema.ExtGoType}}
                 {{- if eq $encoding "string"}}
@@ -213,17 +213,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
             if msg.Headers.{{namify $key}} != nil {
             {{- end}}
                 {{- if eq $encoding "string"}}
-                headers["{{$key}}"] = []byte({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}})
+                headers[{{printf "%q" $key}}] = []byte({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}})
                 {{- else if eq $encoding "date-time"}}
-                headers["{{$key}}"] = []byte(time.Time({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                headers[{{printf "%q" $key}}] = []byte(time.Time({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).Format(time.RFC3339))
                 {{- else if eq $encoding "date"}}
-                headers["{{$key}}"] = []byte(civil.Date({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).String())
+                headers[{{printf "%q" $key}}] = []byte(civil.Date({{if $isPointer}}*{{end}}msg.Headers.{{namify $key}}).String())
                 {{- else}}
                 h{{namify $key}}, err := json.Marshal(msg.Headers.{{namify $key}})
                 if err != nil {
                     return extensions.BrokerMessage{}, err
                 }
-                headers["{{$key}}"] = h{{namify $key}}
+                headers[{{printf "%q" $key}}] = h{{namify $key}}
                 {{- end}}
             {{- if not $value.IsRequired}}
             }
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index b81660e..a6e31a2 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{printf "%q" .Info.Version}}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -90,7 +90,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = "{{ .Follow.Address }}"
+    {{ namifyWithoutParam .Follow.Name }}Path = {{printf "%q" .Follow.Address}}
 {{- end}}
 )
 
-- 
2.43.0


From d29a1619920ebce9069b9a26bab6a4ff89f4493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 46/79] fix: channel addresses with a percent sign, or with
 expressions that are not parameters

---
 .../generators/v2/templates/helpers.go        | 27 ++++++++++---------
 .../generators/v3/templates/helpers.go        | 27 ++++++++++---------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index bd6c11d..4d775f7 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -104,24 +104,27 @@ func IsRequired(schema asyncapi.Schema, field string) bool {
 	return schema.IsFieldRequired(field)
 }
 
+// parameterRegexp matches the parameter expressions in a channel path.
+var parameterRegexp = regexp.MustCompile("{[^{}]*}")
+
 // GenerateChannelPath will generate a channel path with the given channel.
 func GenerateChannelPath(ch asyncapi.Channel) string {
+	// Replace the channel parameters, and keep everything else as it is
+	parameters := ""
+	format := parameterRegexp.ReplaceAllStringFunc(strings.ReplaceAll(ch.Path, "%", "%%"), func(match string) string {
+		if _, exists := ch.Parameters[strings.Trim(match, "{}")]; !exists {
+			return match
+		}
+		parameters += ", params." + templateutil.Namify(match)
+		return "%v"
+	})
+
 	// If there is no parameter, then just return the path
-	if ch.Parameters == nil {
+	if parameters == "" {
 		return fmt.Sprintf("%q", ch.Path)
 	}
 
-	parameterRegexp := regexp.MustCompile("{[^{}]*}")
-
-	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
-
-	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
-	for _, m := range matches {
-		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(m))
-	}
-
-	return sprint[:len(sprint)-1] + ")"
+	return fmt.Sprintf("fmt.Sprintf(%q%s)", format, parameters)
 }
 
 // OperationName returns `operationId` value from Publish or Subscribe operation if any.
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index a5a16e2..053a32c 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -104,27 +104,30 @@ func GenerateChannelAddrFromOp(op asyncapi.Operation) string {
 	return GenerateChannelAddr(ch)
 }
 
+// parameterRegexp matches the parameter expressions in a channel address.
+var parameterRegexp = regexp.MustCompile("{[^{}]*}")
+
 // GenerateChannelAddr will generate a channel path with the given channel.
 func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	// Be sure this is the final channel, not a proxy
 	ch = ch.Follow()
 
+	// Replace the channel parameters, and keep everything else as it is
+	parameters := ""
+	format := parameterRegexp.ReplaceAllStringFunc(strings.ReplaceAll(ch.Address, "%", "%%"), func(match string) string {
+		if _, exists := ch.Parameters[strings.Trim(match, "{}")]; !exists {
+			return match
+		}
+		parameters += ", params." + templateutil.Namify(match)
+		return "%s"
+	})
+
 	// If there is no parameter, then just return the path
-	if ch.Parameters == nil {
+	if parameters == "" {
 		return fmt.Sprintf("%q", ch.Address)
 	}
 
-	parameterRegexp := regexp.MustCompile("{[^{}]*}")
-
-	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
-
-	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
-	for _, m := range matches {
-		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(m))
-	}
-
-	return sprint[:len(sprint)-1] + ")"
+	return fmt.Sprintf("fmt.Sprintf(%q%s)", format, parameters)
 }
 
 func isFieldPointerByDefault(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-- 
2.43.0


From 174ac839be31dac1c28d11a9fb860615ab768411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 47/79] fix: properties of any type keep their tags, and their
 code does not depend on addresses

---
 pkg/codegen/generators/v2/templates/schema_name.tmpl | 4 +---
 pkg/codegen/generators/v3/templates/schema_name.tmpl | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index f0b156e..d71bccd 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -76,9 +76,7 @@ struct {
 
 {{- /* ----------------------- Unsupported use case ---------------------- */ -}}
 {{- else -}}
-interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
+interface{} {{- /* a block comment, as what follows on the line is still code */}} /* WARNING: potential error in AsyncAPI generation */
 {{- end -}}
 
 {{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 3b445c5..b207406 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -76,9 +76,7 @@ struct {
 
 {{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
 {{- else -}}
-interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
+interface{} {{- /* a block comment, as what follows on the line is still code */}} /* WARNING: potential error in AsyncAPI generation */
 {{- end -}}
 
 {{- end -}}
-- 
2.43.0


From c8297e5761a56d4f1d4a718240ece0b92cb02d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 48/79] fix: do not import twice the packages of
 x-go-type-import

---
 pkg/codegen/generators/imports.go             | 62 +++++++++++++++++++
 pkg/codegen/generators/v2/generator.go        |  6 ++
 pkg/codegen/generators/v2/imports.go          |  7 +++
 .../generators/v2/templates/imports.tmpl      | 27 ++------
 pkg/codegen/generators/v3/generator.go        |  6 ++
 pkg/codegen/generators/v3/imports.go          |  7 +++
 .../generators/v3/templates/imports.tmpl      | 27 ++------
 7 files changed, 96 insertions(+), 46 deletions(-)
 create mode 100644 pkg/codegen/generators/imports.go

diff --git a/pkg/codegen/generators/imports.go b/pkg/codegen/generators/imports.go
new file mode 100644
index 0000000..6fcd5d8
--- /dev/null
+++ b/pkg/codegen/generators/imports.go
@@ -0,0 +1,62 @@
+package generators
+
+import (
+	"fmt"
+	"path"
+	"strconv"
+	"strings"
+)
+
+// defaultImports are the packages that the generated code may use, by group.
+var defaultImports = [][]string{
+	// Standard library imports
+	{"encoding/json", "time", "errors", "fmt", "context", "encoding/binary", "math"},
+	// AsyncAPI Codegen imports, for extensions
+	{"github.com/lerenn/asyncapi-codegen/pkg/extensions"},
+	// External imports, for UUID, and for Date & Time formatting
+	{"github.com/google/uuid", "cloud.google.com/go/civil"},
+}
+
+// DefaultImports returns the packages that the generated code may use, by group.
+func DefaultImports() [][]string {
+	return defaultImports
+}
+
+// AdditionalImports returns the custom imports (like `alias "abc.xyz/package"`)
+// that have to be added to the default ones, which is all of them except the ones
+// that are already there. It returns an error when two imports have the same name.
+func AdditionalImports(customs []string) ([]string, error) {
+	paths := make(map[string]string)
+	for _, group := range defaultImports {
+		for _, p := range group {
+			paths[path.Base(p)] = p
+		}
+	}
+
+	additional := make([]string, 0, len(customs))
+	for _, custom := range customs {
+		name, quoted, named := strings.Cut(custom, " ")
+		if !named {
+			name, quoted = "", custom
+		}
+
+		importPath, err := strconv.Unquote(quoted)
+		if err != nil {
+			return nil, fmt.Errorf("invalid import %s: %w", custom, err)
+		}
+		if name == "" {
+			name = path.Base(importPath)
+		}
+
+		known, exists := paths[name]
+		switch {
+		case !exists || name == "_" || name == ".":
+			paths[name] = importPath
+			additional = append(additional, custom)
+		case known != importPath:
+			return nil, fmt.Errorf("x-go-type-import name conflict: %q and %q are both imported as %s", known, importPath, name)
+		}
+	}
+
+	return additional, nil
+}
diff --git a/pkg/codegen/generators/v2/generator.go b/pkg/codegen/generators/v2/generator.go
index 40ad337..3c8650d 100644
--- a/pkg/codegen/generators/v2/generator.go
+++ b/pkg/codegen/generators/v2/generator.go
@@ -55,6 +55,12 @@ func (g Generator) generateImports(opts options.Options) (string, error) {
 		return "", fmt.Errorf("failed to generate custom imports: %w", err)
 	}
 
+	// Remove the ones that are always imported
+	imps, err = generators.AdditionalImports(imps)
+	if err != nil {
+		return "", fmt.Errorf("failed to generate custom imports: %w", err)
+	}
+
 	return ImportsGenerator{
 		PackageName:   opts.PackageName,
 		ModuleVersion: g.ModuleVersion,
diff --git a/pkg/codegen/generators/v2/imports.go b/pkg/codegen/generators/v2/imports.go
index 615bc7a..9b47761 100644
--- a/pkg/codegen/generators/v2/imports.go
+++ b/pkg/codegen/generators/v2/imports.go
@@ -2,6 +2,8 @@ package generatorv2
 
 import (
 	"bytes"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 )
 
 // ImportsGenerator is a code generator for imports that will add needed imports
@@ -14,6 +16,11 @@ type ImportsGenerator struct {
 	CustomImports []string
 }
 
+// DefaultImports returns the packages that the generated code may use, by group.
+func (ig ImportsGenerator) DefaultImports() [][]string {
+	return generators.DefaultImports()
+}
+
 // Generate will generate the imports code.
 func (ig ImportsGenerator) Generate() (string, error) {
 	tmplt, err := loadTemplate(importsTemplatePath)
diff --git a/pkg/codegen/generators/v2/templates/imports.tmpl b/pkg/codegen/generators/v2/templates/imports.tmpl
index 26a99fd..809fcb1 100644
--- a/pkg/codegen/generators/v2/templates/imports.tmpl
+++ b/pkg/codegen/generators/v2/templates/imports.tmpl
@@ -4,29 +4,10 @@
 package {{.PackageName}}
 
 import (
-    {{/* ------------------- Standard library imports ------------------- */ -}}
-
-    "encoding/json"
-    "time"
-    "errors"
-    "fmt"
-    "context"
-    "encoding/binary"
-    "math"
-
-    {{/* ------------------- AsyncAPI Codegen imports ------------------- */ -}}
-
-    {{- /* For extensions */}}
-    "github.com/lerenn/asyncapi-codegen/pkg/extensions"
-
-    {{/* ----------------------- External imports ----------------------- */ -}}
-
-    {{- /* For UUID */}}
-    "github.com/google/uuid"
-
-    {{- /* For Date & Time formatting */}}
-    "cloud.google.com/go/civil"
-
+    {{- range .DefaultImports }}
+    {{ range . }}"{{.}}"
+    {{end}}
+    {{- end }}
     {{ range .CustomImports }}{{.}}
     {{end}}
 )
diff --git a/pkg/codegen/generators/v3/generator.go b/pkg/codegen/generators/v3/generator.go
index b2533f7..c8371b6 100644
--- a/pkg/codegen/generators/v3/generator.go
+++ b/pkg/codegen/generators/v3/generator.go
@@ -55,6 +55,12 @@ func (g Generator) generateImports(opts options.Options) (string, error) {
 		return "", fmt.Errorf("failed to generate custom imports: %w", err)
 	}
 
+	// Remove the ones that are always imported
+	imps, err = generators.AdditionalImports(imps)
+	if err != nil {
+		return "", fmt.Errorf("failed to generate custom imports: %w", err)
+	}
+
 	return ImportsGenerator{
 		PackageName:   opts.PackageName,
 		ModuleVersion: g.ModuleVersion,
diff --git a/pkg/codegen/generators/v3/imports.go b/pkg/codegen/generators/v3/imports.go
index 3a4cf46..20c2e5f 100644
--- a/pkg/codegen/generators/v3/imports.go
+++ b/pkg/codegen/generators/v3/imports.go
@@ -2,6 +2,8 @@ package generatorv3
 
 import (
 	"bytes"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 )
 
 // ImportsGenerator is a code generator for imports that will add needed imports
@@ -14,6 +16,11 @@ type ImportsGenerator struct {
 	CustomImports []string
 }
 
+// DefaultImports returns the packages that the generated code may use, by group.
+func (ig ImportsGenerator) DefaultImports() [][]string {
+	return generators.DefaultImports()
+}
+
 // Generate will generate the imports code.
 func (ig ImportsGenerator) Generate() (string, error) {
 	tmplt, err := loadTemplate(importsTemplatePath)
diff --git a/pkg/codegen/generators/v3/templates/imports.tmpl b/pkg/codegen/generators/v3/templates/imports.tmpl
index 26a99fd..809fcb1 100644
--- a/pkg/codegen/generators/v3/templates/imports.tmpl
+++ b/pkg/codegen/generators/v3/templates/imports.tmpl
@@ -4,29 +4,10 @@
 package {{.PackageName}}
 
 import (
-    {{/* ------------------- Standard library imports ------------------- */ -}}
-
-    "encoding/json"
-    "time"
-    "errors"
-    "fmt"
-    "context"
-    "encoding/binary"
-    "math"
-
-    {{/* ------------------- AsyncAPI Codegen imports ------------------- */ -}}
-
-    {{- /* For extensions */}}
-    "github.com/lerenn/asyncapi-codegen/pkg/extensions"
-
-    {{/* ----------------------- External imports ----------------------- */ -}}
-
-    {{- /* For UUID */}}
-    "github.com/google/uuid"
-
-    {{- /* For Date & Time formatting */}}
-    "cloud.google.com/go/civil"
-
+    {{- range .DefaultImports }}
+    {{ range . }}"{{.}}"
+    {{end}}
+    {{- end }}
     {{ range .CustomImports }}{{.}}
     {{end}}
 )
-- 
2.43.0


From 21c80f0c3d68639cac61796c196e31862c7d420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 49/79] fix: always use the same message of a channel with
 several messages

---
 pkg/asyncapi/v3/channel.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..c818c1b 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -2,6 +2,7 @@ package asyncapiv3
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 )
@@ -154,8 +155,16 @@ func (ch *Channel) Follow() *Channel {
 
 // GetMessage will return the channel message.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
-		return m.Follow(), nil // TODO: change
+	// Always use the same message
+	// TODO: change
+	messages := ch.Follow().Messages
+	names := make([]string, 0, len(messages))
+	for name := range messages {
+		names = append(names, name)
 	}
+	if len(names) > 0 {
+		return messages[slices.Min(names)].Follow(), nil
+	}
+
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 }
-- 
2.43.0


From 2b12ec2077019439fe199b4afa9b9082992399b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 50/79] fix: correlation IDs and reply addresses in optional or
 referenced parts of messages

---
 pkg/asyncapi/v2/message.go                    | 41 +++++++++-
 pkg/asyncapi/v3/message.go                    | 41 +++++++++-
 pkg/asyncapi/v3/operation_reply_address.go    |  4 +
 .../generators/v2/templates/helpers.go        | 51 ++++++++++++
 .../generators/v2/templates/message.tmpl      | 33 +++++---
 .../generators/v3/templates/helpers.go        | 79 ++++++++++++++++++-
 .../generators/v3/templates/message.tmpl      | 33 +++++---
 pkg/utils/template/helpers.go                 |  6 ++
 8 files changed, 261 insertions(+), 27 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 3fafbc8..8a3bb17 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -164,6 +164,43 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	}
 	msg.CorrelationIDLocation = loc
 
+	// Check that it can be set
+	if msg.CorrelationID != nil && msg.CorrelationID.Location != "" {
+		return msg.checkLocation(msg.CorrelationID.Location)
+	}
+
+	return nil
+}
+
+// checkLocation checks that there is a string at the location in the message.
+func (msg Message) checkLocation(location string) error {
+	field, path, _ := strings.Cut(location, "#/")
+
+	// Get where to start
+	var schema *Schema
+	switch field {
+	case "$message." + MessageFieldIsHeader.String():
+		schema = msg.Headers
+	case "$message." + MessageFieldIsPayload.String():
+		schema = msg.Payload
+	default:
+		return fmt.Errorf("%w: invalid location %q in message %q", extensions.ErrAsyncAPI, location, msg.Name)
+	}
+
+	// Go down to the location
+	for _, key := range strings.Split(path, "/") {
+		parent := schema.Follow()
+		if parent.Type != SchemaTypeIsObject.String() || parent.Properties[key] == nil {
+			return fmt.Errorf("%w: location %q does not exist in message %q", extensions.ErrAsyncAPI, location, msg.Name)
+		}
+		schema = parent.Properties[key]
+	}
+
+	// Check that it is a string
+	if t := schema.Follow().Type; t != SchemaTypeIsString.String() {
+		return fmt.Errorf("%w: location %q of message %q must be a string, is %q", extensions.ErrAsyncAPI, location, msg.Name, t)
+	}
+
 	return nil
 }
 
@@ -262,7 +299,7 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 	switch {
 	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
 		// Use it as child
-		child = (*placeholder).ReferenceTo
+		child = (*placeholder).Follow()
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
@@ -288,7 +325,7 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-		correlationIDParent = child
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 065d032..79af601 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -246,6 +246,43 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
 
+	// Check that it can be set
+	if msg.CorrelationID.Exists() {
+		return msg.checkLocation(msg.CorrelationID.Location)
+	}
+
+	return nil
+}
+
+// checkLocation checks that there is a string at the location in the message.
+func (msg Message) checkLocation(location string) error {
+	field, path, _ := strings.Cut(location, "#/")
+
+	// Get where to start
+	var schema *Schema
+	switch field {
+	case "$message." + MessageFieldIsHeader.String():
+		schema = msg.Headers
+	case "$message." + MessageFieldIsPayload.String():
+		schema = msg.Payload
+	default:
+		return fmt.Errorf("%w: invalid location %q in message %q", extensions.ErrAsyncAPI, location, msg.Name)
+	}
+
+	// Go down to the location
+	for _, key := range strings.Split(path, "/") {
+		parent := schema.Follow()
+		if parent.Type != SchemaTypeIsObject.String() || parent.Properties[key] == nil {
+			return fmt.Errorf("%w: location %q does not exist in message %q", extensions.ErrAsyncAPI, location, msg.Name)
+		}
+		schema = parent.Properties[key]
+	}
+
+	// Check that it is a string
+	if t := schema.Follow().Type; t != SchemaTypeIsString.String() {
+		return fmt.Errorf("%w: location %q of message %q must be a string, is %q", extensions.ErrAsyncAPI, location, msg.Name, t)
+	}
+
 	return nil
 }
 
@@ -349,7 +386,7 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 	switch {
 	case (*placeholder) != nil && (*placeholder).ReferenceTo != nil: // If there is a reference
 		// Use it as child
-		child = (*placeholder).ReferenceTo
+		child = (*placeholder).Follow()
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
@@ -375,7 +412,7 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-		locationParent = child
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 66828fd..2764c87 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -71,6 +71,10 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 	}
 
 	locationParent := msg.Follow().createTreeUntilLocation(ora.Location)
+	if err := msg.Follow().checkLocation(ora.Location); err != nil {
+		return false, err
+	}
+
 	path := strings.Split(ora.Location, "/")
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 4d775f7..bfe2ea7 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -8,6 +8,7 @@ import (
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
@@ -73,6 +74,55 @@ func ReferenceToTypeName(ref string) string {
 	return templateutil.Namify(parts[3])
 }
 
+// LocationStep is a step on the way to a location in a message.
+type LocationStep struct {
+	// Path is the path of the attribute from the message
+	Path string
+	// Schema is the schema of the attribute
+	Schema *asyncapi.Schema
+	// IsPointer indicates that the attribute is a pointer
+	IsPointer bool
+	// IsLast indicates that this is the location itself
+	IsLast bool
+}
+
+// LocationSteps will convert a location in a message to the struct attributes
+// that lead to it.
+func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error) {
+	field, path, _ := strings.Cut(location, "#/")
+
+	// Get where to start
+	attribute, schema := "Payload", msg.Follow().Payload
+	if field == "$message."+asyncapi.MessageFieldIsHeader.String() {
+		attribute, schema = "Headers", msg.Follow().Headers
+	}
+
+	// Go down to the location
+	keys := strings.Split(path, "/")
+	steps := make([]LocationStep, 0, len(keys))
+	for i, key := range keys {
+		parent := schema.Follow()
+		if schema = parent.Properties[key]; schema == nil {
+			return nil, fmt.Errorf("%w: no %q in message %q", extensions.ErrAsyncAPI, location, msg.Name)
+		}
+
+		attribute += "." + templateutil.Namify(key)
+		steps = append(steps, LocationStep{
+			Path:      attribute,
+			Schema:    schema,
+			IsPointer: isFieldPointer(*parent, key, *schema),
+			IsLast:    i == len(keys)-1,
+		})
+	}
+
+	// Check that it is generated as a string
+	if last := schema.Follow(); last.ExtGoType == "" && templateutil.IsDateOrDateTimeGenerated(last.Format) {
+		return nil, fmt.Errorf("%w: %q of message %q is a %s", extensions.ErrAsyncAPI, location, msg.Name, last.Format)
+	}
+
+	return steps, nil
+}
+
 // ChannelToMessage will convert a channel to its message, based on publish/subscribe.
 //
 //nolint:cyclop
@@ -172,6 +222,7 @@ func HelpersFunctions() template.FuncMap {
 		"isFieldPointer":                 isFieldPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
+		"locationSteps":                  LocationSteps,
 		"operationName":                  OperationName,
 		"referenceToTypeName":            ReferenceToTypeName,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 45d5c2b..56d44e0 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -36,8 +36,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
-    u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.SetCorrelationID(uuid.New().String())
     {{- end}}
 
     return msg
@@ -235,28 +234,40 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
-        return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
-    {{- else -}}
-    if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
-        return *msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
+    {{- range locationSteps $ $.CorrelationIDLocation }}
+    {{- if .IsPointer}}
+    if msg.{{.Path}} == nil {
+        return ""
     }
+    {{- end}}
+    {{- if .IsLast}}
 
-    return ""
+    return string({{if .IsPointer}}*{{end}}msg.{{.Path}})
+    {{- end}}
     {{- end}}
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    {{- range locationSteps $ $.CorrelationIDLocation }}
+    {{- if and .IsLast .IsPointer}}
+    value := {{template "schema-name" .Schema}}(id)
+    msg.{{.Path}} = &value
+    {{- else if .IsLast}}
+    msg.{{.Path}} = {{template "schema-name" .Schema}}(id)
+    {{- else if .IsPointer}}
+    if msg.{{.Path}} == nil {
+        msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    }
+    {{- end}}
+    {{- end}}
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
 {{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 053a32c..a382ce5 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -8,6 +8,7 @@ import (
 
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"
 )
@@ -66,6 +67,55 @@ func ReferenceToStructAttributePath(ref string) string {
 	return strings.Join(path, ".")
 }
 
+// LocationStep is a step on the way to a location in a message.
+type LocationStep struct {
+	// Path is the path of the attribute from the message
+	Path string
+	// Schema is the schema of the attribute
+	Schema *asyncapi.Schema
+	// IsPointer indicates that the attribute is a pointer
+	IsPointer bool
+	// IsLast indicates that this is the location itself
+	IsLast bool
+}
+
+// LocationSteps will convert a location in a message to the struct attributes
+// that lead to it.
+func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error) {
+	field, path, _ := strings.Cut(location, "#/")
+
+	// Get where to start
+	attribute, schema := "Payload", msg.Follow().Payload
+	if field == "$message."+asyncapi.MessageFieldIsHeader.String() {
+		attribute, schema = "Headers", msg.Follow().Headers
+	}
+
+	// Go down to the location
+	keys := strings.Split(path, "/")
+	steps := make([]LocationStep, 0, len(keys))
+	for i, key := range keys {
+		parent := schema.Follow()
+		if schema = parent.Properties[key]; schema == nil {
+			return nil, fmt.Errorf("%w: no %q in message %q", extensions.ErrAsyncAPI, location, msg.Name)
+		}
+
+		attribute += "." + templateutil.Namify(key)
+		steps = append(steps, LocationStep{
+			Path:      attribute,
+			Schema:    schema,
+			IsPointer: isFieldPointer(*parent, key, *schema),
+			IsLast:    i == len(keys)-1,
+		})
+	}
+
+	// Check that it is generated as a string
+	if last := schema.Follow(); last.ExtGoType == "" && templateutil.IsDateOrDateTimeGenerated(last.Format) {
+		return nil, fmt.Errorf("%w: %q of message %q is a %s", extensions.ErrAsyncAPI, location, msg.Name, last.Format)
+	}
+
+	return steps, nil
+}
+
 // ChannelToMessageTypeName will convert a channel to a message type name in the
 // form of golang conventional type names.
 func ChannelToMessageTypeName(ch asyncapi.Channel) string {
@@ -109,6 +159,30 @@ var parameterRegexp = regexp.MustCompile("{[^{}]*}")
 
 // GenerateChannelAddr will generate a channel path with the given channel.
 func GenerateChannelAddr(ch *asyncapi.Channel) string {
+	return generateChannelAddrWith("params", ch)
+}
+
+// NeedReplyParameters checks if the address of the reply channel has parameters
+// that are not the ones of the channel of the operation.
+func NeedReplyParameters(op asyncapi.Operation) bool {
+	parameters := op.Channel.Follow().Parameters
+	for name := range op.Reply.Channel.Follow().Parameters {
+		if _, exists := parameters[name]; !exists {
+			return true
+		}
+	}
+	return false
+}
+
+// GenerateReplyChannelAddr will generate the channel path of the reply of the given operation.
+func GenerateReplyChannelAddr(op asyncapi.Operation) string {
+	if NeedReplyParameters(op) {
+		return generateChannelAddrWith("replyParams", op.Reply.Channel)
+	}
+	return generateChannelAddrWith("params", op.Reply.Channel)
+}
+
+func generateChannelAddrWith(params string, ch *asyncapi.Channel) string {
 	// Be sure this is the final channel, not a proxy
 	ch = ch.Follow()
 
@@ -118,7 +192,7 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 		if _, exists := ch.Parameters[strings.Trim(match, "{}")]; !exists {
 			return match
 		}
-		parameters += ", params." + templateutil.Namify(match)
+		parameters += ", " + params + "." + templateutil.Namify(match)
 		return "%s"
 	})
 
@@ -160,7 +234,10 @@ func HelpersFunctions() template.FuncMap {
 		"isFieldPointer":                 isFieldPointer,
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
+		"generateReplyChannelAddr":       GenerateReplyChannelAddr,
+		"needReplyParameters":            NeedReplyParameters,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
+		"locationSteps":                  LocationSteps,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index c8daf19..4495c1d 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -43,8 +43,7 @@ func New{{namify .Name}}() {{namify .Name}} {
 
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
-    u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.SetCorrelationID(uuid.New().String())
     {{- end}}
 
     return msg
@@ -243,28 +242,40 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
-        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
-    {{- else -}}
-    if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
-        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+    {{- range locationSteps $ $.Follow.CorrelationID.Location }}
+    {{- if .IsPointer}}
+    if msg.{{.Path}} == nil {
+        return ""
     }
+    {{- end}}
+    {{- if .IsLast}}
 
-    return ""
+    return string({{if .IsPointer}}*{{end}}msg.{{.Path}})
+    {{- end}}
     {{- end}}
 }
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    {{- range locationSteps $ $.Follow.CorrelationID.Location }}
+    {{- if and .IsLast .IsPointer}}
+    value := {{template "schema-name" .Schema}}(id)
+    msg.{{.Path}} = &value
+    {{- else if .IsLast}}
+    msg.{{.Path}} = {{template "schema-name" .Schema}}(id)
+    {{- else if .IsPointer}}
+    if msg.{{.Path}} == nil {
+        msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    }
+    {{- end}}
+    {{- end}}
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
 // It will assign the 'req' message correlation ID to the message correlation ID,
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
-    id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.SetCorrelationID(req.CorrelationID())
 }
 {{- end -}}
 
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 6b8281b..2286f7b 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -171,6 +171,12 @@ func EnableDateOrTimeGeneration() {
 	isDateOrDateTimeGenerated = isDateOrDateTime
 }
 
+// IsDateOrDateTimeGenerated indicates if the type of the format is generated as a
+// date or a date-time, instead of a string.
+func IsDateOrDateTimeGenerated(format string) bool {
+	return isDateOrDateTimeGenerated(format)
+}
+
 // GetHeaderEncoding returns how a header is encoded, based on its schema: either
 // directly ("string", "date-time" or "date") or in "json".
 func GetHeaderEncoding(schemaType, format, goType string) string {
-- 
2.43.0


From e7120af7f8f1382c8c506b7710d81264c14342a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 51/79] fix: requests whose channel has no address, or whose
 reply has parameters or no correlation ID

---
 pkg/asyncapi/v3/operation.go                  | 29 +++++++-
 .../generators/v3/templates/controller.tmpl   | 69 +++++++++++--------
 2 files changed, 70 insertions(+), 28 deletions(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 9313c36..e111dbc 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -9,6 +9,9 @@ import (
 var (
 	// ErrNoChannelInOperation is the error returned when there is no channel in an operation.
 	ErrNoChannelInOperation = fmt.Errorf("%w: no channel in operation", extensions.ErrAsyncAPI)
+	// ErrNoAddressInReply is the error returned when there is neither an address
+	// in the reply of an operation, nor in its channel.
+	ErrNoAddressInReply = fmt.Errorf("%w: no address for reply", extensions.ErrAsyncAPI)
 )
 
 // OperationAction represents an OperationAction.
@@ -215,8 +218,13 @@ func (op *Operation) generateReply() error {
 		return fmt.Errorf("%w: reply of operation %q", ErrNoChannelInOperation, op.Name)
 	}
 
-	// Generate reply
+	// Check that there is an address
 	ch := op.Reply.Channel.Follow()
+	if ch.Address == "" && (op.Reply.Address == nil || op.Reply.Address.Location == "") {
+		return fmt.Errorf("%w: reply of operation %q", ErrNoAddressInReply, op.Name)
+	}
+
+	// Generate reply
 	op.ReplyIs = &Operation{
 		Name:    "ReplyTo" + op.Name,
 		Channel: ch,
@@ -240,6 +248,25 @@ func (op Operation) GetMessage() (*Message, error) {
 	return op.Channel.GetMessage()
 }
 
+// HaveCorrelatedReply checks that the message of the operation and its reply
+// both have a correlation ID.
+func (op Operation) HaveCorrelatedReply() bool {
+	if op.ReplyIs == nil {
+		return false
+	}
+
+	msg, err := op.Follow().GetMessage()
+	if err != nil {
+		return false
+	}
+	reply, err := op.ReplyIs.GetMessage()
+	if err != nil {
+		return false
+	}
+
+	return msg.HaveCorrelationID() && reply.HaveCorrelationID()
+}
+
 // ApplyTrait applies a trait to the operation.
 func (op *Operation) ApplyTrait(ot *OperationTrait, spec Specification) {
 	// Check operation is not nil
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 40d2eb5..1e24b89 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -258,10 +258,17 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
 {{- if .Reply }}
 // ReplyTo{{ namify $value.Follow.Name }} is a helper function to
 // reply to a {{cutSuffix (opToMsgTypeName $value) "Message"}} message with a {{cutSuffix (opToMsgTypeName $value.ReplyIs) "Message"}} message on {{cutSuffix (opToChannelTypeName $value.ReplyIs) "Channel"}} channel.
-func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
+func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(
+    ctx context.Context,
+    {{- if .Reply.Channel.Follow.Parameters}}
+    params {{namifyWithoutParam .Reply.Channel.Follow.Name}}Parameters,
+    {{- end}}
+    recvMsg {{opToMsgTypeName $value}},
+    fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}}),
+) error {
     // Create reply message
     replyMsg := New{{opToMsgTypeName $value.ReplyIs }}()
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if $value.HaveCorrelatedReply -}}
 	replyMsg.SetAsResponseFrom(&recvMsg)
     {{- end}}
 
@@ -270,23 +277,23 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
 
     // Publish reply
     {{- /* Use reply address if needed */}}
-    {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
-            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- else }}
-            if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+    {{- if eq .Reply.Channel.Follow.Address "" }}
+        {{- range locationSteps $value.GetMessage .Reply.Address.Location }}
+            {{- if .IsPointer }}
+            if recvMsg.{{.Path}} == nil {
+                return fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            {{- end }}
+            {{- if .IsLast }}
+            chanAddr := string({{if .IsPointer}}*{{end}}recvMsg.{{.Path}})
+            {{- end }}
         {{- end }}
         if chanAddr == "" {
             return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
         }
-
-        return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
-    {{- else }}
-        return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, replyMsg)
     {{- end }}
+
+    return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, {{- if .Reply.Channel.Follow.Parameters}}params, {{end}} {{- if eq .Reply.Channel.Follow.Address ""}}chanAddr, {{end}}replyMsg)
 }
 
 {{- end}}
@@ -398,23 +405,31 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     {{- if .Channel.Follow.Parameters}}
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
+    {{- if eq .Channel.Follow.Address "" }}
+    chanAddr string,
+    {{- end}}
+    {{- if needReplyParameters $value }}
+    replyParams {{namifyWithoutParam .Reply.Channel.Follow.Name}}Parameters,
+    {{- end}}
     msg {{opToMsgTypeName $value}},
 ) ({{channelToMessageTypeName .Reply.Channel}}, error) {
     // Get receiving channel address
-    {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
-            addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
-        {{- else }}
-            if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+    {{- if eq .Reply.Channel.Follow.Address "" }}
+        {{- range locationSteps $value.GetMessage .Reply.Address.Location }}
+            {{- if .IsPointer }}
+            if msg.{{.Path}} == nil {
+                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            {{- end }}
+            {{- if .IsLast }}
+            addr := string({{if .IsPointer}}*{{end}}msg.{{.Path}})
+            {{- end }}
         {{- end }}
         if addr == "" {
             return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
         }
     {{- else }}
-        addr := {{ generateChannelAddr .Reply.Channel }}
+        addr := {{ generateReplyChannelAddr $value }}
     {{- end }}
 
     // Set context
@@ -446,7 +461,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     {{- end}}
 
     // Send the message 
-    if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
+    if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params, {{end}} {{- if eq .Channel.Follow.Address ""}}chanAddr, {{end}}msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
         return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
@@ -454,7 +469,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Wait for corresponding response
     for {
         // Listen to next message
-        msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
+        msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.HaveCorrelatedReply}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
         }
@@ -477,7 +492,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     ctx context.Context,
     addr string,
     sub extensions.BrokerChannelSubscription,
-    {{- if $value.GetMessage.HaveCorrelationID}}
+    {{- if $value.HaveCorrelatedReply}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
 ) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
@@ -485,7 +500,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
     msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsDirection, "wait-for")      
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if $value.HaveCorrelatedReply -}}
         msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{end -}}
     defer cancel()
@@ -500,7 +515,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, extensions.ErrSubscriptionCanceled
         }
 
-        {{if $value.GetMessage.HaveCorrelationID -}}
+        {{if $value.HaveCorrelatedReply -}}
         // Get new message
         rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
@@ -532,7 +547,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $value.HaveCorrelatedReply}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From dafc39bb69792b0fdd2320980665d6c4d5598be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 52/79] fix: operations with the same reply channel, and
 references to the same channel

---
 pkg/codegen/generators/v3/common.go           |  5 ++--
 .../generators/v3/templates/helpers.go        | 23 +++++++++++++++++++
 .../generators/v3/templates/types.tmpl        |  4 ++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 328348a..7ba100a 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -48,8 +48,9 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 
 		// Add a artificial operation for reply if the controller should respond to a reply
 		if shouldControllerRespondToReply(side, op) {
-			ch := op.Reply.Channel.Follow()
-			ao.Send[ch.Name] = op.ReplyIs
+			reply := *op.ReplyIs
+			reply.Name = "ReplyTo" + op.Name
+			ao.Send[reply.Name] = &reply
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index a382ce5..6b8b26b 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -3,6 +3,7 @@ package templates
 import (
 	"fmt"
 	"regexp"
+	"slices"
 	"strings"
 	"text/template"
 
@@ -162,6 +163,27 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return generateChannelAddrWith("params", ch)
 }
 
+// DistinctChannels returns the channels, sorted by key, without the ones that are
+// a reference to the same channel as a previous one.
+func DistinctChannels(channels map[string]*asyncapi.Channel) []*asyncapi.Channel {
+	keys := make([]string, 0, len(channels))
+	for key := range channels {
+		keys = append(keys, key)
+	}
+	slices.Sort(keys)
+
+	distinct := make([]*asyncapi.Channel, 0, len(channels))
+	known := make(map[*asyncapi.Channel]bool, len(channels))
+	for _, key := range keys {
+		if ch := channels[key].Follow(); !known[ch] {
+			known[ch] = true
+			distinct = append(distinct, channels[key])
+		}
+	}
+
+	return distinct
+}
+
 // NeedReplyParameters checks if the address of the reply channel has parameters
 // that are not the ones of the channel of the operation.
 func NeedReplyParameters(op asyncapi.Operation) bool {
@@ -236,6 +258,7 @@ func HelpersFunctions() template.FuncMap {
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"generateReplyChannelAddr":       GenerateReplyChannelAddr,
 		"needReplyParameters":            NeedReplyParameters,
+		"distinctChannels":               DistinctChannels,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"locationSteps":                  LocationSteps,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index a6e31a2..639949f 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 
 {{- if .Channels}}
 const(
-{{- range $key, $value := .Channels}}
+{{- range $value := distinctChannels .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
     {{ namifyWithoutParam .Follow.Name }}Path = {{printf "%q" .Follow.Address}}
 {{- end}}
@@ -96,7 +96,7 @@ const(
 
 // ChannelsPaths is an array of all channels paths
 var ChannelsPaths = []string{
-{{- range $key, $value := .Channels}}
+{{- range $value := distinctChannels .Channels}}
     {{ namifyWithoutParam .Follow.Name }}Path,
 {{- end}}
 }
-- 
2.43.0


From c625e4bb20a391e088edfe77e23f457c5476d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 53/79] fix: report the names that conflict in the generated
 code

---
 pkg/codegen/codegen.go                 |   6 ++
 pkg/codegen/generators/declarations.go | 120 +++++++++++++++++++++++++
 pkg/codegen/generators/imports.go      |  17 +++-
 3 files changed, 141 insertions(+), 2 deletions(-)
 create mode 100644 pkg/codegen/generators/declarations.go

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 22e3f8d..547beb2 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -9,6 +9,7 @@ import (
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
 	asyncapiv2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
 	asyncapiv3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
+	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 	generatorv2 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v2"
 	templatesv2 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v2/templates"
 	generatorv3 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v3"
@@ -115,6 +116,11 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
+	// Check that nothing is declared twice
+	if err := generators.CheckDeclarations(content); err != nil {
+		return err
+	}
+
 	// Format content if not disabled
 	var fileContent []byte
 	if !opt.DisableFormatting {
diff --git a/pkg/codegen/generators/declarations.go b/pkg/codegen/generators/declarations.go
new file mode 100644
index 0000000..a78dafc
--- /dev/null
+++ b/pkg/codegen/generators/declarations.go
@@ -0,0 +1,120 @@
+package generators
+
+import (
+	"errors"
+	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
+	"strconv"
+)
+
+// ErrNameConflict is the error returned when several elements of the specification
+// have the same name in the generated code.
+var ErrNameConflict = errors.New("name conflict in generated code")
+
+// CheckDeclarations checks that the generated code can be parsed, and that each
+// name is declared only once in each package, struct and list of parameters.
+func CheckDeclarations(content string) error {
+	file, err := parser.ParseFile(token.NewFileSet(), "", content, parser.SkipObjectResolution)
+	if err != nil {
+		return fmt.Errorf("generated code is invalid: %w", err)
+	}
+
+	d := declarations{
+		names:   make(map[string]bool),
+		members: make(map[string]bool),
+	}
+	for _, imp := range file.Imports {
+		d.addImport(imp)
+	}
+	for _, decl := range file.Decls {
+		switch decl := decl.(type) {
+		case *ast.GenDecl:
+			d.addGenDecl(decl)
+		case *ast.FuncDecl:
+			d.addFunc(decl)
+		}
+	}
+
+	return d.err
+}
+
+// declarations contains everything that is declared in the code.
+type declarations struct {
+	names   map[string]bool
+	members map[string]bool
+	err     error
+}
+
+func (d *declarations) add(scope map[string]bool, name string) {
+	if name == "_" {
+		return
+	}
+	if scope[name] && d.err == nil {
+		d.err = fmt.Errorf("%w: %s is declared several times", ErrNameConflict, name)
+	}
+	scope[name] = true
+}
+
+func (d *declarations) addImport(imp *ast.ImportSpec) {
+	if imp.Name != nil {
+		d.add(d.names, imp.Name.Name)
+		return
+	}
+	if importPath, err := strconv.Unquote(imp.Path.Value); err == nil {
+		d.add(d.names, packageName(importPath))
+	}
+}
+
+func (d *declarations) addGenDecl(decl *ast.GenDecl) {
+	for _, spec := range decl.Specs {
+		switch spec := spec.(type) {
+		case *ast.TypeSpec:
+			d.add(d.names, spec.Name.Name)
+			d.addFields(spec.Name.Name, spec.Type)
+		case *ast.ValueSpec:
+			for _, name := range spec.Names {
+				d.add(d.names, name.Name)
+			}
+		}
+	}
+}
+
+func (d *declarations) addFields(typeName string, expr ast.Expr) {
+	st, isStruct := expr.(*ast.StructType)
+	if !isStruct {
+		return
+	}
+	for _, field := range st.Fields.List {
+		if len(field.Names) == 0 { // The type is used as the name
+			d.add(d.members, typeName+"."+typeIdentifier(field.Type))
+		}
+		for _, name := range field.Names {
+			d.add(d.members, typeName+"."+name.Name)
+		}
+	}
+}
+
+func (d *declarations) addFunc(decl *ast.FuncDecl) {
+	if decl.Recv == nil || len(decl.Recv.List) == 0 {
+		d.add(d.names, decl.Name.Name)
+		return
+	}
+
+	d.add(d.members, typeIdentifier(decl.Recv.List[0].Type)+"."+decl.Name.Name)
+}
+
+// typeIdentifier returns the identifier of a type, without pointer or package.
+func typeIdentifier(expr ast.Expr) string {
+	switch expr := expr.(type) {
+	case *ast.StarExpr:
+		return typeIdentifier(expr.X)
+	case *ast.SelectorExpr:
+		return expr.Sel.Name
+	case *ast.Ident:
+		return expr.Name
+	default:
+		return "_"
+	}
+}
diff --git a/pkg/codegen/generators/imports.go b/pkg/codegen/generators/imports.go
index 6fcd5d8..4122f3d 100644
--- a/pkg/codegen/generators/imports.go
+++ b/pkg/codegen/generators/imports.go
@@ -3,6 +3,7 @@ package generators
 import (
 	"fmt"
 	"path"
+	"regexp"
 	"strconv"
 	"strings"
 )
@@ -17,6 +18,8 @@ var defaultImports = [][]string{
 	{"github.com/google/uuid", "cloud.google.com/go/civil"},
 }
 
+var majorVersionRegexp = regexp.MustCompile("^v[0-9]+$")
+
 // DefaultImports returns the packages that the generated code may use, by group.
 func DefaultImports() [][]string {
 	return defaultImports
@@ -29,7 +32,7 @@ func AdditionalImports(customs []string) ([]string, error) {
 	paths := make(map[string]string)
 	for _, group := range defaultImports {
 		for _, p := range group {
-			paths[path.Base(p)] = p
+			paths[packageName(p)] = p
 		}
 	}
 
@@ -45,7 +48,7 @@ func AdditionalImports(customs []string) ([]string, error) {
 			return nil, fmt.Errorf("invalid import %s: %w", custom, err)
 		}
 		if name == "" {
-			name = path.Base(importPath)
+			name = packageName(importPath)
 		}
 
 		known, exists := paths[name]
@@ -60,3 +63,13 @@ func AdditionalImports(customs []string) ([]string, error) {
 
 	return additional, nil
 }
+
+// packageName returns the name that a package should have, based on its path.
+func packageName(importPath string) string {
+	name := path.Base(importPath)
+	if majorVersionRegexp.MatchString(name) && path.Dir(importPath) != "." {
+		name = path.Base(path.Dir(importPath))
+	}
+	name, _, _ = strings.Cut(name, ".v")
+	return name
+}
-- 
2.43.0


From d9b66c1e1af7a4b67d8e4e54fc78bd9ee7bf1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 54/79] fix: payloads of messages that are an array or an
 object

---
 pkg/asyncapi/v2/schema.go | 2 +-
 pkg/asyncapi/v3/schema.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 805c565..7e216a0 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -437,9 +437,9 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 	// Otherwise, merge in an object of this message
 	if s == nil {
 		s = utils.ToPointer(NewSchema())
-		s.Name = name
 		s.dependenciesSet = true
 	}
+	s.Name = name
 
 	// The types of the other message are already generated if it is referenced
 	if isReferenced && s2.Reference == "" {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index d1aa3c7..008a67b 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -437,9 +437,9 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 	// Otherwise, merge in an object of this message
 	if s == nil {
 		s = utils.ToPointer(NewSchema())
-		s.Name = name
 		s.dependenciesSet = true
 	}
+	s.Name = name
 
 	// The types of the other message are already generated if it is referenced
 	if isReferenced && s2.Reference == "" {
-- 
2.43.0


From ddb2ea35354e668c7095a1acc78496fe11b48bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 55/79] fix: messages without payload, undeclared fields that
 are required, and references inside schemas without type

---
 pkg/asyncapi/v2/message.go                                 | 1 +
 pkg/asyncapi/v3/message.go                                 | 1 +
 pkg/codegen/generators/v2/templates/schema_definition.tmpl | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl             | 4 ++--
 pkg/codegen/generators/v3/templates/schema_definition.tmpl | 2 +-
 5 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 8a3bb17..ec6354e 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -333,6 +333,7 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 			// Create child
 			child = utils.ToPointer(NewSchema())
 			child.Name = template.Namify(correlationIDParent.Name + template.Namify(v))
+			child.IsRequired = correlationIDParent.IsFieldRequired(v)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 79af601..f9094dd 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -420,6 +420,7 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 			// Create child
 			child = utils.ToPointer(NewSchema())
 			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
+			child.IsRequired = locationParent.IsFieldRequired(v)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 4a98b26..7f2cba4 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -42,7 +42,7 @@ type {{ namify .Name }} {{template "schema-name" .}}
 {{- end -}}
 
 {{- /* ------------------------- SubDefinitions ------------------------- */ -}}
-{{ if or (eq .Type "object") (eq .Type "array") -}}
+{{ if or (eq .Type "object") (eq .Type "array") (eq .Type "") -}}
     {{- range $key, $value := getChildrenObjectSchemas . }}
         {{template "schema-definition" $value }}
     {{- end}}
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index 1388f31..0a7a5f0 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -67,11 +67,11 @@ type {{ namifyWithoutParam $key }}Parameters struct {
 }
 {{end}}
 
-{{- if and $value.Subscribe $value.Subscribe.Message.Payload}}
+{{- if $value.Subscribe}}
 {{template "message" $value.Subscribe.Message}}
 {{end -}}
 
-{{- if and $value.Publish $value.Publish.Message.Payload}}
+{{- if $value.Publish}}
 {{template "message" $value.Publish.Message}}
 {{end -}}
 {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 4a98b26..7f2cba4 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -42,7 +42,7 @@ type {{ namify .Name }} {{template "schema-name" .}}
 {{- end -}}
 
 {{- /* ------------------------- SubDefinitions ------------------------- */ -}}
-{{ if or (eq .Type "object") (eq .Type "array") -}}
+{{ if or (eq .Type "object") (eq .Type "array") (eq .Type "") -}}
     {{- range $key, $value := getChildrenObjectSchemas . }}
         {{template "schema-definition" $value }}
     {{- end}}
-- 
2.43.0


From 58dc67e4bdd0e3a30239d0808a79287512ad5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 56/79] fix: generate the types of a schema in the same order
 each time

---
 pkg/utils/map.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/utils/map.go b/pkg/utils/map.go
index 3459302..5a05ffa 100644
--- a/pkg/utils/map.go
+++ b/pkg/utils/map.go
@@ -1,10 +1,21 @@
 package utils
 
-// MapToList will change a map to a list.
-func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
+import (
+	"cmp"
+	"slices"
+)
+
+// MapToList will change a map to a list, sorted by key.
+func MapToList[T1 cmp.Ordered, T2 any](m map[T1]T2) []T2 {
+	keys := make([]T1, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+
 	l := make([]T2, 0, len(m))
-	for _, v := range m {
-		l = append(l, v)
+	for _, k := range keys {
+		l = append(l, m[k])
 	}
 	return l
 }
-- 
2.43.0


From a36c59a8c3911ee1fa9cb0fb3be2635a4e81c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 57/79] fix: schemas that are composed of schemas leading back
 to them

---
 pkg/asyncapi/v2/schema.go | 214 +++++++++++++++++++-------------------
 pkg/asyncapi/v3/schema.go | 163 ++++++++++++++---------------
 2 files changed, 184 insertions(+), 193 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 7e216a0..76b1781 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -48,8 +48,15 @@ type Schema struct {
 	// isComponent indicates that the schema is directly in the components.
 	isComponent bool
 
-	// dependenciesSet indicates that the dependencies of the schema are already set.
-	dependenciesSet bool
+	// referencesSet indicates that the references in the schema are already set.
+	referencesSet bool
+
+	// dependenciesMerged indicates that everything that composes the schemas in
+	// the schema is already merged.
+	dependenciesMerged bool
+
+	// partsMerged indicates that what composes the schema is already merged.
+	partsMerged bool
 
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
@@ -124,76 +131,79 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent doing it again (or indefinitely, if the schema references itself)
-	if s.dependenciesSet {
-		return nil
+	// Set all the references before merging anything, as schemas can reference
+	// themselves through what they are composed of
+	if err := s.setReferences(spec); err != nil {
+		return err
 	}
-	s.dependenciesSet = true
 
-	// Reference to another schema if specified
-	if s.Reference != "" {
-		refTo, refSpec, err := spec.referenceSchema(s.Reference)
-		if err != nil {
-			return err
-		}
-		s.ReferenceTo = refTo
-		s.setValidationsFromReferenced(refTo)
+	return s.mergeDependencies(spec)
+}
 
-		// Set dependencies of the reference, as they are needed if it is merged
-		if err := refTo.setDependencies(*refSpec); err != nil {
-			return err
-		}
-	}
+// parts returns the schemas that compose the schema.
+func (s *Schema) parts() []*Schema {
+	parts := make([]*Schema, 0, len(s.AnyOf)+len(s.OneOf)+len(s.AllOf))
+	parts = append(parts, s.AnyOf...)
+	parts = append(parts, s.OneOf...)
+	return append(parts, s.AllOf...)
+}
 
-	// Set properties dependencies
-	if err := s.setPropertiesDependencies(spec); err != nil {
-		return err
+// children returns the schemas that are directly in the schema.
+func (s *Schema) children() []*Schema {
+	children := append(s.parts(), s.AdditionalProperties, s.Items)
+	for _, p := range s.Properties {
+		children = append(children, p)
 	}
 
-	// Set items dependencies
-	if err := s.setItemsDependencies(spec); err != nil {
-		return err
-	}
+	return children
+}
 
-	// Set AnyOf links
-	if err := s.setAnyOfDependencies(spec); err != nil {
-		return err
+// setReferences sets the references of the schema and of everything it leads to.
+func (s *Schema) setReferences(spec Specification) error {
+	// Prevent modification if nil, and doing it again (or indefinitely, if the
+	// schema references itself)
+	if s == nil || s.referencesSet {
+		return nil
 	}
+	s.referencesSet = true
 
-	// Set OneOf links
-	if err := s.setOneOfDependencies(spec); err != nil {
+	// Set reference
+	if err := s.setReference(spec); err != nil {
 		return err
 	}
 
-	// Set AllOf links
-	if err := s.setAllOfDependencies(spec); err != nil {
-		return err
+	// Set children references
+	for _, c := range s.children() {
+		if err := c.setReferences(spec); err != nil {
+			return err
+		}
 	}
 
-	// Set AdditionalProperties links
-	if err := s.setAdditionalPropertiesDependencies(spec); err != nil {
-		return err
+	// What is composed will be an object
+	if len(s.parts()) > 0 {
+		s.Type = SchemaTypeIsObject.String()
 	}
 
 	return nil
 }
 
-func (s *Schema) generatePropertiesMetadata() error {
-	for n, p := range s.Properties {
-		if err := p.generateMetadata(
-			s.Name+template.Namify(n),
-			utils.IsInSlice(s.Required, n),
-		); err != nil {
-			return err
-		}
+// mergeDependencies merges what composes the schema and everything it leads to.
+func (s *Schema) mergeDependencies(spec Specification) error {
+	// Prevent modification if nil, and doing it again (or indefinitely, if the
+	// schema references itself)
+	if s == nil || s.dependenciesMerged {
+		return nil
 	}
+	s.dependenciesMerged = true
 
-	return nil
-}
+	// Merge parts
+	if err := s.mergeParts(spec); err != nil {
+		return err
+	}
 
-func (s *Schema) setPropertiesDependencies(spec Specification) error {
-	for _, p := range s.Properties {
-		if err := p.setDependencies(spec); err != nil {
+	// Merge children and reference
+	for _, c := range append(s.children(), s.ReferenceTo) {
+		if err := c.mergeDependencies(spec); err != nil {
 			return err
 		}
 	}
@@ -201,29 +211,25 @@ func (s *Schema) setPropertiesDependencies(spec Specification) error {
 	return nil
 }
 
-func (s *Schema) generateItemsMetadata() error {
-	if s.Items != nil {
-		if err := s.Items.generateMetadata(s.Name+"Item", false); err != nil {
-			return err
-		}
+// mergeParts merges what composes the schema in it, as one struct (invalidate references).
+func (s *Schema) mergeParts(spec Specification) error {
+	// Prevent modification if nil, and doing it again (or indefinitely, if the
+	// schema is a part of itself)
+	if s == nil || s.partsMerged {
+		return nil
 	}
+	s.partsMerged = true
 
-	return nil
-}
-
-func (s *Schema) setItemsDependencies(spec Specification) error {
-	if s.Items != nil {
-		if err := s.Items.setDependencies(spec); err != nil {
+	// Be sure that what will be merged is complete
+	for _, v := range append(s.parts(), s.ReferenceTo) {
+		if err := v.mergeParts(spec); err != nil {
 			return err
 		}
 	}
 
-	return nil
-}
-
-func (s *Schema) generateaAnyOfMetadata() error {
-	for _, v := range s.AnyOf {
-		if err := v.generateMetadata(s.Name+"AnyOf", false); err != nil {
+	// Merge them, knowing that only what AllOf parts require is required
+	for i, v := range s.parts() {
+		if err := s.mergeWith(spec, *v, i >= len(s.AnyOf)+len(s.OneOf)); err != nil {
 			return err
 		}
 	}
@@ -231,25 +237,29 @@ func (s *Schema) generateaAnyOfMetadata() error {
 	return nil
 }
 
-func (s *Schema) setAnyOfDependencies(spec Specification) error {
-	for _, v := range s.AnyOf {
-		// Set dependencies
-		if err := v.setDependencies(spec); err != nil {
-			return err
-		}
+func (s *Schema) setReference(spec Specification) error {
+	if s.Reference == "" {
+		return nil
+	}
 
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.mergeWith(spec, *v, false); err != nil {
-			return err
-		}
+	// Add pointer to reference
+	refTo, refSpec, err := spec.referenceSchema(s.Reference)
+	if err != nil {
+		return err
 	}
+	s.ReferenceTo = refTo
+	s.setValidationsFromReferenced(refTo)
 
-	return nil
+	// Set references of the reference, as they are needed if it is merged
+	return refTo.setReferences(*refSpec)
 }
 
-func (s *Schema) generateOneOfMetadata() error {
-	for _, v := range s.OneOf {
-		if err := v.generateMetadata(s.Name+"OneOf", false); err != nil {
+func (s *Schema) generatePropertiesMetadata() error {
+	for n, p := range s.Properties {
+		if err := p.generateMetadata(
+			s.Name+template.Namify(n),
+			utils.IsInSlice(s.Required, n),
+		); err != nil {
 			return err
 		}
 	}
@@ -257,15 +267,9 @@ func (s *Schema) generateOneOfMetadata() error {
 	return nil
 }
 
-func (s *Schema) setOneOfDependencies(spec Specification) error {
-	for _, v := range s.OneOf {
-		// Set dependencies
-		if err := v.setDependencies(spec); err != nil {
-			return err
-		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.mergeWith(spec, *v, false); err != nil {
+func (s *Schema) generateItemsMetadata() error {
+	if s.Items != nil {
+		if err := s.Items.generateMetadata(s.Name+"Item", false); err != nil {
 			return err
 		}
 	}
@@ -273,9 +277,9 @@ func (s *Schema) setOneOfDependencies(spec Specification) error {
 	return nil
 }
 
-func (s *Schema) generateAllOfMetadata() error {
-	for _, v := range s.AllOf {
-		if err := v.generateMetadata(s.Name+"AllOf", false); err != nil {
+func (s *Schema) generateaAnyOfMetadata() error {
+	for _, v := range s.AnyOf {
+		if err := v.generateMetadata(s.Name+"AnyOf", false); err != nil {
 			return err
 		}
 	}
@@ -283,15 +287,9 @@ func (s *Schema) generateAllOfMetadata() error {
 	return nil
 }
 
-func (s *Schema) setAllOfDependencies(spec Specification) error {
-	for _, v := range s.AllOf {
-		// Set dependencies
-		if err := v.setDependencies(spec); err != nil {
-			return err
-		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
+func (s *Schema) generateOneOfMetadata() error {
+	for _, v := range s.OneOf {
+		if err := v.generateMetadata(s.Name+"OneOf", false); err != nil {
 			return err
 		}
 	}
@@ -299,9 +297,9 @@ func (s *Schema) setAllOfDependencies(spec Specification) error {
 	return nil
 }
 
-func (s *Schema) generateAdditionalPropertiesMetadata() error {
-	if s.AdditionalProperties != nil {
-		if err := s.AdditionalProperties.generateMetadata(s.Name+"AdditionalProperties", false); err != nil {
+func (s *Schema) generateAllOfMetadata() error {
+	for _, v := range s.AllOf {
+		if err := v.generateMetadata(s.Name+"AllOf", false); err != nil {
 			return err
 		}
 	}
@@ -309,9 +307,9 @@ func (s *Schema) generateAdditionalPropertiesMetadata() error {
 	return nil
 }
 
-func (s *Schema) setAdditionalPropertiesDependencies(spec Specification) error {
+func (s *Schema) generateAdditionalPropertiesMetadata() error {
 	if s.AdditionalProperties != nil {
-		if err := s.AdditionalProperties.setDependencies(spec); err != nil {
+		if err := s.AdditionalProperties.generateMetadata(s.Name+"AdditionalProperties", false); err != nil {
 			return err
 		}
 	}
@@ -437,7 +435,6 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 	// Otherwise, merge in an object of this message
 	if s == nil {
 		s = utils.ToPointer(NewSchema())
-		s.dependenciesSet = true
 	}
 	s.Name = name
 
@@ -453,6 +450,7 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 // schema is referenced, then its types are already generated and are referenced too.
 func (s *Schema) mergeable(isReferenced bool) *Schema {
 	copied := *s
+	copied.dependenciesMerged, copied.partsMerged = false, false
 	if !isReferenced || s.ExtGoType != "" || s.ReferenceTo != nil {
 		return &copied
 	}
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 008a67b..961c9ea 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -66,8 +66,15 @@ type Schema struct {
 	// isComponent indicates that the schema is directly in the components.
 	isComponent bool
 
-	// dependenciesSet indicates that the dependencies of the schema are already set.
-	dependenciesSet bool
+	// referencesSet indicates that the references in the schema are already set.
+	referencesSet bool
+
+	// dependenciesMerged indicates that everything that composes the schemas in
+	// the schema is already merged.
+	dependenciesMerged bool
+
+	// partsMerged indicates that what composes the schema is already merged.
+	partsMerged bool
 
 	// Embedded validation fields
 	asyncapi.Validations[Schema]
@@ -175,96 +182,86 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	return nil
 }
 
-//
-//nolint:funlen,cyclop // Not necessary to reduce length and cyclop
+// setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if s == nil {
-		return nil
+	// Set all the references before merging anything, as schemas can reference
+	// themselves through what they are composed of
+	if err := s.setReferences(spec); err != nil {
+		return err
 	}
 
-	// Prevent doing it again (or indefinitely, if the schema references itself)
-	if s.dependenciesSet {
-		return nil
-	}
-	s.dependenciesSet = true
+	return s.mergeDependencies(spec)
+}
 
-	// Set reference
-	if err := s.setReference(spec); err != nil {
-		return err
-	}
+// parts returns the schemas that compose the schema.
+func (s *Schema) parts() []*Schema {
+	parts := make([]*Schema, 0, len(s.AnyOf)+len(s.OneOf)+len(s.AllOf))
+	parts = append(parts, s.AnyOf...)
+	parts = append(parts, s.OneOf...)
+	return append(parts, s.AllOf...)
+}
 
-	// Set Properties dependencies
+// children returns the schemas that are directly in the schema.
+func (s *Schema) children() []*Schema {
+	children := append(s.parts(), s.AdditionalProperties, s.Items, s.Not)
+	children = append(children, s.AdditionalItems...)
+	children = append(children, s.Contains...)
 	for _, p := range s.Properties {
-		if err := p.setDependencies(spec); err != nil {
-			return err
-		}
+		children = append(children, p)
 	}
-
-	// Set Pattern Properties dependencies
 	for _, p := range s.PatternProperties {
-		if err := p.setDependencies(spec); err != nil {
-			return err
-		}
+		children = append(children, p)
 	}
 
-	// Set AdditionalProperties dependencies
-	if s.AdditionalProperties != nil {
-		if err := s.AdditionalProperties.setDependencies(spec); err != nil {
-			return err
-		}
-	}
+	return children
+}
 
-	// Set Additional Items dependencies
-	for _, item := range s.AdditionalItems {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+// setReferences sets the references of the schema and of everything it leads to.
+func (s *Schema) setReferences(spec Specification) error {
+	// Prevent modification if nil, and doing it again (or indefinitely, if the
+	// schema references itself)
+	if s == nil || s.referencesSet {
+		return nil
 	}
+	s.referencesSet = true
 
-	// Set Items dependencies
-	if err := s.Items.setDependencies(spec); err != nil {
+	// Set reference
+	if err := s.setReference(spec); err != nil {
 		return err
 	}
 
-	// Set Contains dependencies
-	for _, item := range s.Contains {
-		if err := item.setDependencies(spec); err != nil {
+	// Set children references
+	for _, c := range s.children() {
+		if err := c.setReferences(spec); err != nil {
 			return err
 		}
 	}
 
-	// Set AnyOf dependencies
-	if err := s.setAnyOfDependenciesAndMerge(spec); err != nil {
-		return err
+	// What is composed will be an object
+	if len(s.parts()) > 0 {
+		s.Type = SchemaTypeIsObject.String()
 	}
 
-	// Set OneOf dependencies
-	if err := s.setOneOfDependenciesAndMerge(spec); err != nil {
-		return err
-	}
+	return nil
+}
 
-	// Set AllOf dependencies
-	if err := s.setAllOfDependenciesAndMerge(spec); err != nil {
-		return err
+// mergeDependencies merges what composes the schema and everything it leads to.
+func (s *Schema) mergeDependencies(spec Specification) error {
+	// Prevent modification if nil, and doing it again (or indefinitely, if the
+	// schema references itself)
+	if s == nil || s.dependenciesMerged {
+		return nil
 	}
+	s.dependenciesMerged = true
 
-	// Set Not dependencies
-	if err := s.Not.setDependencies(spec); err != nil {
+	// Merge parts
+	if err := s.mergeParts(spec); err != nil {
 		return err
 	}
 
-	return nil
-}
-
-func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
-	for _, v := range s.AllOf {
-		if err := v.setDependencies(spec); err != nil {
-			return err
-		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.MergeWith(spec, *v); err != nil {
+	// Merge children and reference
+	for _, c := range append(s.children(), s.ReferenceTo) {
+		if err := c.mergeDependencies(spec); err != nil {
 			return err
 		}
 	}
@@ -272,29 +269,25 @@ func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 	return nil
 }
 
-func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
-	for _, v := range s.OneOf {
-		if err := v.setDependencies(spec); err != nil {
-			return err
-		}
-
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.mergeWith(spec, *v, false); err != nil {
-			return err
-		}
+// mergeParts merges what composes the schema in it, as one struct (invalidate references).
+func (s *Schema) mergeParts(spec Specification) error {
+	// Prevent modification if nil, and doing it again (or indefinitely, if the
+	// schema is a part of itself)
+	if s == nil || s.partsMerged {
+		return nil
 	}
+	s.partsMerged = true
 
-	return nil
-}
-
-func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
-	for _, v := range s.AnyOf {
-		if err := v.setDependencies(spec); err != nil {
+	// Be sure that what will be merged is complete
+	for _, v := range append(s.parts(), s.ReferenceTo) {
+		if err := v.mergeParts(spec); err != nil {
 			return err
 		}
+	}
 
-		// Merge with other fields as one struct (invalidate references)
-		if err := s.mergeWith(spec, *v, false); err != nil {
+	// Merge them, knowing that only what AllOf parts require is required
+	for i, v := range s.parts() {
+		if err := s.mergeWith(spec, *v, i >= len(s.AnyOf)+len(s.OneOf)); err != nil {
 			return err
 		}
 	}
@@ -315,8 +308,8 @@ func (s *Schema) setReference(spec Specification) error {
 	s.ReferenceTo = refTo
 	s.Validations.Merge(refTo.Validations)
 
-	// Set dependencies of the reference, as they are needed if it is merged
-	return refTo.setDependencies(*refSpec)
+	// Set references of the reference, as they are needed if it is merged
+	return refTo.setReferences(*refSpec)
 }
 
 // IsFieldRequired checks if a field is required in the asyncapi struct.
@@ -437,7 +430,6 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 	// Otherwise, merge in an object of this message
 	if s == nil {
 		s = utils.ToPointer(NewSchema())
-		s.dependenciesSet = true
 	}
 	s.Name = name
 
@@ -453,6 +445,7 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 // schema is referenced, then its types are already generated and are referenced too.
 func (s *Schema) mergeable(isReferenced bool) *Schema {
 	copied := *s
+	copied.dependenciesMerged, copied.partsMerged = false, false
 	if !isReferenced || s.ExtGoType != "" || s.ReferenceTo != nil {
 		return &copied
 	}
-- 
2.43.0


From f8c10f294237c2681c8ac742f3d20ba022bfac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 58/79] fix: description of operations

---
 pkg/asyncapi/v3/operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index e111dbc..806bf49 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -44,7 +44,7 @@ type Operation struct {
 	Channel      *Channel               `json:"channel"` // Reference only
 	Title        string                 `json:"title"`
 	Summary      string                 `json:"summary"`
-	Description  string                 `json:"string"`
+	Description  string                 `json:"description"`
 	Security     []*SecurityScheme      `json:"security"`
 	Tags         []*Tag                 `json:"tags"`
 	ExternalDocs *ExternalDocumentation `json:"externalDocs"`
-- 
2.43.0


From f59ece4528da9b8144ab72bb03ceb9ad22137ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 59/79] fix: names of tags, of which duplicates are removed
 when traits are applied

---
 pkg/asyncapi/v3/tag.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v3/tag.go b/pkg/asyncapi/v3/tag.go
index 199e144..82c7b8a 100644
--- a/pkg/asyncapi/v3/tag.go
+++ b/pkg/asyncapi/v3/tag.go
@@ -23,8 +23,10 @@ func (t *Tag) generateMetadata(parentName, name string, number *int) {
 		return
 	}
 
-	// Set name
-	t.Name = generateFullName(parentName, name, "Tag", number)
+	// Set name, if the tag has none
+	if t.Name == "" {
+		t.Name = generateFullName(parentName, name, "Tag", number)
+	}
 
 	// Generate ExternalDocs metadata
 	t.ExternalDocs.generateMetadata(name, ExternalDocsNameSuffix)
@@ -60,7 +62,7 @@ func RemoveDuplicateTags(tags []*Tag) []*Tag {
 	for _, t := range tags {
 		present := false
 		for _, pt := range newList {
-			if pt.Name == t.Name {
+			if pt.Follow().Name == t.Follow().Name {
 				present = true
 				break
 			}
@@ -72,3 +74,11 @@ func RemoveDuplicateTags(tags []*Tag) []*Tag {
 	}
 	return newList
 }
+
+// Follow returns referenced tag if specified or the actual tag.
+func (t *Tag) Follow() *Tag {
+	if t.ReferenceTo != nil {
+		return t.ReferenceTo
+	}
+	return t
+}
-- 
2.43.0


From 7c3ebf2348f41ed9beb5fdf0038dc8469332352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 60/79] fix: bindings of message traits, and payloads that are
 not objects

---
 pkg/asyncapi/v3/message.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index f9094dd..8bfd230 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -578,6 +578,12 @@ func (msg *Message) ApplyTrait(mt *MessageTrait, spec Specification) error {
 		msg.ExternalDocs = &extDoc
 	}
 
+	// Override bindings if not set
+	if msg.Bindings == nil && mt.Bindings != nil {
+		bindings := *mt.Bindings
+		msg.Bindings = &bindings
+	}
+
 	// Merge examples
 	msg.Examples = append(msg.Examples, mt.Examples...)
 
@@ -628,6 +634,11 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 		return payload.setDependencies(spec)
 	}
 
+	// There is nothing to add to a payload that is not an object
+	if t := msg.Payload.Follow().Type; t != "" && t != SchemaTypeIsObject.String() {
+		return nil
+	}
+
 	// Merge payload
 	return msg.Payload.MergeWith(spec, *payload)
 }
-- 
2.43.0


From a735be117a14daf8b3ba66eaf3e56703c927acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 61/79] fix: locations of correlation IDs and reply addresses
 that are escaped

---
 pkg/asyncapi/reference.go                      | 13 ++++++++++++-
 pkg/asyncapi/v2/message.go                     | 13 +++++++------
 pkg/asyncapi/v3/message.go                     | 13 +++++++------
 pkg/asyncapi/v3/operation_reply_address.go     |  4 ++--
 pkg/codegen/generators/v2/templates/helpers.go |  5 +++--
 pkg/codegen/generators/v3/templates/helpers.go |  5 +++--
 6 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/pkg/asyncapi/reference.go b/pkg/asyncapi/reference.go
index c50158f..4e2dec6 100644
--- a/pkg/asyncapi/reference.go
+++ b/pkg/asyncapi/reference.go
@@ -13,11 +13,22 @@ func SplitReferencePath(path string) ([]string, error) {
 		return nil, err
 	}
 
+	return splitJSONPointer(path), nil
+}
+
+// SplitLocationPath splits the path of a location in a message (i.e. what is after
+// the '#') into its elements. Elements are unescaped, as the path is a JSON pointer.
+func SplitLocationPath(location string) []string {
+	_, path, _ := strings.Cut(location, "#")
+	return splitJSONPointer(path)
+}
+
+func splitJSONPointer(path string) []string {
 	elements := strings.Split(strings.TrimPrefix(path, "/"), "/")
 	for i, e := range elements {
 		e = strings.ReplaceAll(e, "~1", "/")
 		elements[i] = strings.ReplaceAll(e, "~0", "~")
 	}
 
-	return elements, nil
+	return elements
 }
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index ec6354e..19b089b 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
@@ -174,7 +175,7 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 
 // checkLocation checks that there is a string at the location in the message.
 func (msg Message) checkLocation(location string) error {
-	field, path, _ := strings.Cut(location, "#/")
+	field, _, _ := strings.Cut(location, "#/")
 
 	// Get where to start
 	var schema *Schema
@@ -188,7 +189,7 @@ func (msg Message) checkLocation(location string) error {
 	}
 
 	// Go down to the location
-	for _, key := range strings.Split(path, "/") {
+	for _, key := range asyncapi.SplitLocationPath(location) {
 		parent := schema.Follow()
 		if parent.Type != SchemaTypeIsObject.String() || parent.Properties[key] == nil {
 			return fmt.Errorf("%w: location %q does not exist in message %q", extensions.ErrAsyncAPI, location, msg.Name)
@@ -258,7 +259,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilCorrelationID()
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := asyncapi.SplitLocationPath(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -322,8 +323,8 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
 	var exists bool
 
-	path := strings.Split(msg.CorrelationID.Location, "/")
-	for i, v := range path[1:] {
+	path := asyncapi.SplitLocationPath(msg.CorrelationID.Location)
+	for i, v := range path {
 		// Keep the parent
 		correlationIDParent = child.Follow()
 
@@ -334,7 +335,7 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 			child = utils.ToPointer(NewSchema())
 			child.Name = template.Namify(correlationIDParent.Name + template.Namify(v))
 			child.IsRequired = correlationIDParent.IsFieldRequired(v)
-			if i == len(path)-2 { // As there is -1 in the loop slice
+			if i == len(path)-1 {
 				child.Type = SchemaTypeIsString.String()
 			} else {
 				child.Type = SchemaTypeIsObject.String()
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 8bfd230..76e8fad 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
 	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
@@ -256,7 +257,7 @@ func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
 
 // checkLocation checks that there is a string at the location in the message.
 func (msg Message) checkLocation(location string) error {
-	field, path, _ := strings.Cut(location, "#/")
+	field, _, _ := strings.Cut(location, "#/")
 
 	// Get where to start
 	var schema *Schema
@@ -270,7 +271,7 @@ func (msg Message) checkLocation(location string) error {
 	}
 
 	// Go down to the location
-	for _, key := range strings.Split(path, "/") {
+	for _, key := range asyncapi.SplitLocationPath(location) {
 		parent := schema.Follow()
 		if parent.Type != SchemaTypeIsObject.String() || parent.Properties[key] == nil {
 			return fmt.Errorf("%w: location %q does not exist in message %q", extensions.ErrAsyncAPI, location, msg.Name)
@@ -341,7 +342,7 @@ func (msg Message) isCorrelationIDRequired() bool {
 	}
 
 	correlationIDParent := msg.createTreeUntilLocation(msg.CorrelationID.Location)
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	path := asyncapi.SplitLocationPath(msg.CorrelationID.Location)
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -409,8 +410,8 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
 	var exists bool
 
-	path := strings.Split(location, "/")
-	for i, v := range path[1:] {
+	path := asyncapi.SplitLocationPath(location)
+	for i, v := range path {
 		// Keep the parent
 		locationParent = child.Follow()
 
@@ -421,7 +422,7 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 			child = utils.ToPointer(NewSchema())
 			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
 			child.IsRequired = locationParent.IsFieldRequired(v)
-			if i == len(path)-2 { // As there is -1 in the loop slice
+			if i == len(path)-1 {
 				child.Type = SchemaTypeIsString.String()
 			} else {
 				child.Type = SchemaTypeIsObject.String()
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 2764c87..ac8cfc4 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -1,7 +1,7 @@
 package asyncapiv3
 
 import (
-	"strings"
+	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 )
 
 // OperationReplyAddress is a representation of the corresponding asyncapi object
@@ -75,6 +75,6 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 		return false, err
 	}
 
-	path := strings.Split(ora.Location, "/")
+	path := asyncapi.SplitLocationPath(ora.Location)
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index bfe2ea7..0a630e4 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 	"text/template"
 
+	asyncapibase "github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -89,7 +90,7 @@ type LocationStep struct {
 // LocationSteps will convert a location in a message to the struct attributes
 // that lead to it.
 func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error) {
-	field, path, _ := strings.Cut(location, "#/")
+	field, _, _ := strings.Cut(location, "#/")
 
 	// Get where to start
 	attribute, schema := "Payload", msg.Follow().Payload
@@ -98,7 +99,7 @@ func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error
 	}
 
 	// Go down to the location
-	keys := strings.Split(path, "/")
+	keys := asyncapibase.SplitLocationPath(location)
 	steps := make([]LocationStep, 0, len(keys))
 	for i, key := range keys {
 		parent := schema.Follow()
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 6b8b26b..d93a31d 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"text/template"
 
+	asyncapibase "github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
 	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
 	"github.com/lerenn/asyncapi-codegen/pkg/codegen/generators"
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -83,7 +84,7 @@ type LocationStep struct {
 // LocationSteps will convert a location in a message to the struct attributes
 // that lead to it.
 func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error) {
-	field, path, _ := strings.Cut(location, "#/")
+	field, _, _ := strings.Cut(location, "#/")
 
 	// Get where to start
 	attribute, schema := "Payload", msg.Follow().Payload
@@ -92,7 +93,7 @@ func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error
 	}
 
 	// Go down to the location
-	keys := strings.Split(path, "/")
+	keys := asyncapibase.SplitLocationPath(location)
 	steps := make([]LocationStep, 0, len(keys))
 	for i, key := range keys {
 		parent := schema.Follow()
-- 
2.43.0


From 6b687d0d3e12dc8218947270242859af9d10e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 62/79] fix: correlation IDs that are references in AsyncAPI v2

---
 pkg/asyncapi/v2/components.go     | 14 +++++++++++---
 pkg/asyncapi/v2/correlation_id.go | 27 +++++++++++++++++++++++++++
 pkg/asyncapi/v2/message.go        |  5 +++++
 pkg/asyncapi/v2/specification.go  | 26 ++++++++++++++++++++++++++
 4 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index 4b07c50..3081c94 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -6,9 +6,10 @@ package asyncapiv2
 type Components struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
-	Messages   map[string]*Message   `json:"messages"`
-	Schemas    map[string]*Schema    `json:"schemas"`
-	Parameters map[string]*Parameter `json:"parameters"`
+	Messages       map[string]*Message       `json:"messages"`
+	Schemas        map[string]*Schema        `json:"schemas"`
+	Parameters     map[string]*Parameter     `json:"parameters"`
+	CorrelationIDs map[string]*CorrelationID `json:"correlationIds"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 }
@@ -56,6 +57,13 @@ func (c *Components) setDependencies(spec Specification) error {
 		}
 	}
 
+	// For all correlation IDs, set correlation ID dependencies
+	for _, correlationID := range c.CorrelationIDs {
+		if err := correlationID.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// For all parameters, set param dependencies
 	for _, param := range c.Parameters {
 		if err := param.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v2/correlation_id.go b/pkg/asyncapi/v2/correlation_id.go
index b2594f2..8b35212 100644
--- a/pkg/asyncapi/v2/correlation_id.go
+++ b/pkg/asyncapi/v2/correlation_id.go
@@ -8,6 +8,33 @@ type CorrelationID struct {
 
 	Description string `json:"description"`
 	Location    string `json:"location"`
+	Reference   string `json:"$ref"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
+
+	ReferenceTo *CorrelationID `json:"-"`
+}
+
+// setDependencies sets dependencies between the different elements of the CorrelationID.
+func (c *CorrelationID) setDependencies(spec Specification) error {
+	// Add pointer to reference if there is one
+	if c == nil || c.Reference == "" {
+		return nil
+	}
+
+	refTo, err := spec.ReferenceCorrelationID(c.Reference)
+	if err != nil {
+		return err
+	}
+	c.ReferenceTo = refTo
+
+	return nil
+}
+
+// Follow returns referenced correlation ID if specified or the actual correlation ID.
+func (c *CorrelationID) Follow() *CorrelationID {
+	if c != nil && c.ReferenceTo != nil {
+		return c.ReferenceTo
+	}
+	return c
 }
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 19b089b..c6d875b 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -155,7 +155,12 @@ func (msg *Message) setHeadersDependencies(spec Specification) error {
 }
 
 func (msg *Message) setCorrelationIDDependencies(spec Specification) error {
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// NOTE: this has to be done once the references are known
+	msg.CorrelationID = msg.CorrelationID.Follow()
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 0c56f5f..6c7de60 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -150,6 +150,30 @@ func (s Specification) ReferenceParameter(ref string) (*Parameter, error) {
 	return param, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceMessage returns the Message struct corresponding to the given reference.
 func (s Specification) ReferenceMessage(ref string) (*Message, error) {
 	msg, _, err := s.referenceMessage(ref)
@@ -317,6 +341,8 @@ func (s Specification) referenceFromPath(ref, path string) (any, error) {
 		return s.Components.Schemas[name].referenceFrom(subPath), nil
 	case refPath[1] == "parameters" && len(subPath) == 0:
 		return s.Components.Parameters[name], nil
+	case refPath[1] == "correlationIds" && len(subPath) == 0:
+		return s.Components.CorrelationIDs[name], nil
 	default:
 		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
 	}
-- 
2.43.0


From e5c50cc73f637a5176f0a6045fead089eadd211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 63/79] fix: do not modify the message of the caller when
 setting its correlation ID

---
 pkg/codegen/generators/v2/templates/message.tmpl | 4 ++++
 pkg/codegen/generators/v3/templates/message.tmpl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 56d44e0..0548bfc 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -258,6 +258,10 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
     {{- else if .IsPointer}}
     if msg.{{.Path}} == nil {
         msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    } else {
+        // The object can be shared with other copies of the message
+        value := *msg.{{.Path}}
+        msg.{{.Path}} = &value
     }
     {{- end}}
     {{- end}}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 4495c1d..5fd25a3 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -266,6 +266,10 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
     {{- else if .IsPointer}}
     if msg.{{.Path}} == nil {
         msg.{{.Path}} = new({{template "schema-name" .Schema}})
+    } else {
+        // The object can be shared with other copies of the message
+        value := *msg.{{.Path}}
+        msg.{{.Path}} = &value
     }
     {{- end}}
     {{- end}}
-- 
2.43.0


From 28300e7d3c368ab5db4d4d9fef4f85e5ce315bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 64/79] fix: use the messages of the reply when it lists them

---
 pkg/asyncapi/v3/operation.go                   |  7 ++++---
 .../generators/v3/templates/controller.tmpl    | 18 +++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 806bf49..8a4ba9d 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -226,9 +226,10 @@ func (op *Operation) generateReply() error {
 
 	// Generate reply
 	op.ReplyIs = &Operation{
-		Name:    "ReplyTo" + op.Name,
-		Channel: ch,
-		ReplyOf: op,
+		Name:     "ReplyTo" + op.Name,
+		Channel:  ch,
+		Messages: op.Reply.Messages,
+		ReplyOf:  op,
 	}
 
 	return nil
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 1e24b89..bb54e04 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -412,13 +412,13 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     replyParams {{namifyWithoutParam .Reply.Channel.Follow.Name}}Parameters,
     {{- end}}
     msg {{opToMsgTypeName $value}},
-) ({{channelToMessageTypeName .Reply.Channel}}, error) {
+) ({{opToMsgTypeName .ReplyIs}}, error) {
     // Get receiving channel address
     {{- if eq .Reply.Channel.Follow.Address "" }}
         {{- range locationSteps $value.GetMessage .Reply.Address.Location }}
             {{- if .IsPointer }}
             if msg.{{.Path}} == nil {
-                return {{channelToMessageTypeName $value.Reply.Channel}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+                return {{opToMsgTypeName $value.ReplyIs}}{}, fmt.Errorf("%w: {{$value.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
             {{- end }}
             {{- if .IsLast }}
@@ -426,7 +426,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
             {{- end }}
         {{- end }}
         if addr == "" {
-            return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
         }
     {{- else }}
         addr := {{ generateReplyChannelAddr $value }}
@@ -440,7 +440,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     sub, err := c.broker.Subscribe(ctx, addr)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        return {{opToMsgTypeName .ReplyIs}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -463,7 +463,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Send the message 
     if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params, {{end}} {{- if eq .Channel.Follow.Address ""}}chanAddr, {{end}}msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
-        return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
+        return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
 
     // Wait for corresponding response
@@ -476,7 +476,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 
         // Stop waiting if there is nothing to wait for anymore
         if errors.Is(err, extensions.ErrContextCanceled) || errors.Is(err, extensions.ErrSubscriptionCanceled) {
-            return {{channelToMessageTypeName .Reply.Channel}}{}, err
+            return {{opToMsgTypeName .ReplyIs}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -495,7 +495,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     {{- if $value.HaveCorrelatedReply}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
-) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
+) (*{{opToMsgTypeName .ReplyIs}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
@@ -517,7 +517,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
 
         {{if $value.HaveCorrelatedReply -}}
         // Get new message
-        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err := brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -547,7 +547,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.HaveCorrelatedReply}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $value.HaveCorrelatedReply}}:{{end}}= brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From f20875cdd3453e963bc0e324d645adc63c0d15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 65/79] fix: messages of the application on AsyncAPI v2
 channels with both operations

---
 .../generators/v2/templates/controller.tmpl   | 28 +++++++--------
 .../generators/v2/templates/helpers.go        | 35 +++++++------------
 .../generators/v2/templates/subscriber.tmpl   |  2 +-
 3 files changed, 28 insertions(+), 37 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index cd4a828..ea9d4bb 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -146,7 +146,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     {{- if .Parameters}}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $.Prefix "subscribe").Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -196,7 +196,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $.Prefix "subscribe").Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -219,12 +219,12 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $.Prefix "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
 
-        {{if ne (channelToMessage $value "subscribe").CorrelationIDLocation "" -}}
+        {{if ne (channelToMessage $value $.Prefix "subscribe").CorrelationIDLocation "" -}}
             // Add correlation ID to context if it exists
             if id := msg.CorrelationID(); id != "" {
                 middlewareCtx = context.WithValue(middlewareCtx, extensions.ContextKeyIsCorrelationID, id)
@@ -285,12 +285,12 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     {{- if .Parameters }}
     params {{namifyWithoutParam $key}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value "publish").Name}},
+    msg {{(channelToMessage $value $.Prefix "publish").Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $.Prefix "publish").CorrelationIDLocation "" -}}
     // Set correlation ID if it does not exist
     if id := msg.CorrelationID(); id == "" {
         msg.SetCorrelationID(uuid.New().String())
@@ -300,7 +300,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $.Prefix "publish").CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{- end}}
 
@@ -336,7 +336,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value "subscribe").Name}}, error) {
+) ({{(channelToMessage $value $.Prefix "subscribe").Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -348,7 +348,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $.Prefix "subscribe").Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -363,7 +363,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $.Prefix "subscribe").Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -376,7 +376,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
         // Stop waiting if there is nothing to wait for anymore
         if errors.Is(err, extensions.ErrContextCanceled) || errors.Is(err, extensions.ErrSubscriptionCanceled) {
-            return {{(channelToMessage $value "subscribe").Name}}{}, err
+            return {{(channelToMessage $value $.Prefix "subscribe").Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -393,7 +393,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value "subscribe").Name}}, error) {
+) (*{{(channelToMessage $value $.Prefix "subscribe").Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -412,7 +412,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $.Prefix "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -434,7 +434,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{(channelToMessage $value $.Prefix "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 0a630e4..3fc1f95 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -124,30 +124,21 @@ func LocationSteps(msg asyncapi.Message, location string) ([]LocationStep, error
 	return steps, nil
 }
 
-// ChannelToMessage will convert a channel to its message, based on publish/subscribe.
+// ChannelToMessage will convert a channel to the message that a side (i.e. the prefix
+// of its controller) publishes or receives on this channel.
 //
-//nolint:cyclop
-func ChannelToMessage(ch asyncapi.Channel, direction string) *asyncapi.Message {
-	switch {
-	case ch.Publish != nil && ch.Subscribe == nil:
-		return ch.Publish.Message.Follow()
-	case ch.Subscribe != nil && ch.Publish == nil:
-		return ch.Subscribe.Message.Follow()
-	case direction == "publish":
-		if ch.Publish == nil {
-			panic("ChannelToMessage: channel has no publish operation")
-		}
-		return ch.Publish.Message.Follow()
-	case direction == "subscribe":
-		if ch.Subscribe == nil {
-			panic("ChannelToMessage: channel has no subscribe operation")
-		}
-		return ch.Subscribe.Message.Follow()
-	case ch.Subscribe == nil && ch.Publish == nil:
-		panic("ChannelToMessage: channel has no publish or subscribe operation")
-	default:
-		panic("direction must be either 'publish' or 'subscribe'")
+// NOTE: operations are the ones of the user: the application receives what is
+// published, and publishes what is subscribed to.
+func ChannelToMessage(ch asyncapi.Channel, side, direction string) *asyncapi.Message {
+	op := ch.Publish
+	if (direction == "subscribe") == (side == "User") {
+		op = ch.Subscribe
+	}
+
+	if op == nil {
+		panic(fmt.Sprintf("ChannelToMessage: channel has nothing to %s for %s", direction, side))
 	}
+	return op.Message.Follow()
 }
 
 // IsRequired will check if a field is required in a asyncapi struct.
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index d429d44..6aecd19 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -3,7 +3,7 @@
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $.Prefix "subscribe").Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From c65ae7583f85fb617115b1a07bda16bd98143c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 66/79] fix: let the headers of the caller unmodified when
 adding the version

---
 pkg/extensions/versioning/wrapper.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index c2749b4..48a408b 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -79,10 +79,13 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
 	// Add version to message
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
-		if mw.Headers == nil {
-			mw.Headers = make(map[string][]byte)
+		// NOTE: use a copy of the headers, to let those of the caller unmodified
+		headers := make(map[string][]byte, len(mw.Headers)+1)
+		for k, v := range mw.Headers {
+			headers[k] = v
 		}
-		mw.Headers[w.versionHeaderKey] = []byte(version)
+		headers[w.versionHeaderKey] = []byte(version)
+		mw.Headers = headers
 	})
 
 	// Send message
-- 
2.43.0


From 4547568489b8a22d0c1cbe381b1bfd2fecedc2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 67/79] fix: combine the validations of a property that several
 parts of a schema define

---
 pkg/asyncapi/schema.go    | 99 +++++++++++++++++++++++++++++++++++++++
 pkg/asyncapi/v2/schema.go | 56 ++++++++++++++++++----
 pkg/asyncapi/v3/schema.go | 56 ++++++++++++++++++----
 3 files changed, 191 insertions(+), 20 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index 7b69bc0..1c264d9 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -1,5 +1,10 @@
 package asyncapi
 
+import (
+	"cmp"
+	"reflect"
+)
+
 // Validations is a representation of the JSON-Object validation fields supported by asyncapi
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
@@ -83,3 +88,97 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 		v.ShouldOmitEmpty = newV.ShouldOmitEmpty
 	}
 }
+
+// Intersect restricts the Validations to what other ones, on the same element, also allow.
+func (v *Validations[T]) Intersect(other Validations[T]) {
+	v.Maximum = tightest(v.Maximum, other.Maximum, -1)
+	v.ExclusiveMaximum = tightest(v.ExclusiveMaximum, other.ExclusiveMaximum, -1)
+	v.Minimum = tightest(v.Minimum, other.Minimum, 1)
+	v.ExclusiveMinimum = tightest(v.ExclusiveMinimum, other.ExclusiveMinimum, 1)
+	v.MaxLength = tightest(v.MaxLength, other.MaxLength, -1)
+	v.MinLength = tightest(v.MinLength, other.MinLength, 1)
+	v.UniqueItems = v.UniqueItems || other.UniqueItems
+
+	// Keep only the values that are in both, if both are restricted
+	values, otherValues := v.values(), other.values()
+	switch {
+	case otherValues == nil:
+	case values == nil:
+		v.Enum, v.Const = other.Enum, other.Const
+	default:
+		common := filterValues(values, otherValues)
+		if len(common) > 0 {
+			v.Enum, v.Const = common, nil
+		} else if len(values) > 0 && len(otherValues) > 0 { // Nothing is allowed
+			v.Enum, v.Const = values, otherValues[0]
+		}
+	}
+}
+
+// Unite extends the Validations to what other ones, on the same element, allow.
+func (v *Validations[T]) Unite(other Validations[T]) {
+	v.Maximum = loosest(v.Maximum, other.Maximum, -1)
+	v.ExclusiveMaximum = loosest(v.ExclusiveMaximum, other.ExclusiveMaximum, -1)
+	v.Minimum = loosest(v.Minimum, other.Minimum, 1)
+	v.ExclusiveMinimum = loosest(v.ExclusiveMinimum, other.ExclusiveMinimum, 1)
+	v.MaxLength = loosest(v.MaxLength, other.MaxLength, -1)
+	v.MinLength = loosest(v.MinLength, other.MinLength, 1)
+	v.UniqueItems = v.UniqueItems && other.UniqueItems
+
+	// Add the values of the other one, if both are restricted
+	values, otherValues := v.values(), other.values()
+	v.Enum, v.Const = nil, nil
+	if values != nil && otherValues != nil {
+		v.Enum = append([]any{}, values...)
+		for _, value := range otherValues {
+			if len(filterValues([]any{value}, values)) == 0 {
+				v.Enum = append(v.Enum, value)
+			}
+		}
+	}
+}
+
+// values returns the only values that are allowed, or nil if there is no such restriction.
+func (v *Validations[T]) values() []any {
+	switch {
+	case v.Const == nil && len(v.Enum) == 0:
+		return nil
+	case v.Const == nil:
+		return v.Enum
+	case len(v.Enum) == 0:
+		return []any{v.Const}
+	default:
+		return filterValues(v.Enum, []any{v.Const})
+	}
+}
+
+// filterValues returns the values that are also in the other ones.
+func filterValues(values, others []any) []any {
+	filtered := make([]any, 0, len(values))
+	for _, value := range values {
+		for _, other := range others {
+			if reflect.DeepEqual(value, other) {
+				filtered = append(filtered, value)
+				break
+			}
+		}
+	}
+	return filtered
+}
+
+// tightest returns the bound that restricts the most, which is the greatest for
+// a positive direction and the lowest otherwise.
+func tightest[B cmp.Ordered](a, b *B, direction int) *B {
+	if a == nil || (b != nil && cmp.Compare(*b, *a)*direction > 0) {
+		return b
+	}
+	return a
+}
+
+// loosest returns the bound that restricts the least, if there are both.
+func loosest[B cmp.Ordered](a, b *B, direction int) *B {
+	if a == nil || b == nil {
+		return nil
+	}
+	return tightest(a, b, -direction)
+}
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 76b1781..ac9143a 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -227,9 +227,26 @@ func (s *Schema) mergeParts(spec Specification) error {
 		}
 	}
 
-	// Merge them, knowing that only what AllOf parts require is required
-	for i, v := range s.parts() {
-		if err := s.mergeWith(spec, *v, i >= len(s.AnyOf)+len(s.OneOf)); err != nil {
+	// Merge alternatives, where nothing is required
+	for _, alternatives := range [][]*Schema{s.AnyOf, s.OneOf} {
+		if len(alternatives) == 0 {
+			continue
+		}
+
+		merged := utils.ToPointer(NewSchema())
+		for _, v := range alternatives {
+			if err := merged.mergeWith(spec, *v, false, unite); err != nil {
+				return err
+			}
+		}
+		if err := s.mergeWith(spec, *merged, false, intersect); err != nil {
+			return err
+		}
+	}
+
+	// Merge AllOf parts
+	for _, v := range s.AllOf {
+		if err := s.mergeWith(spec, *v, true, intersect); err != nil {
 			return err
 		}
 	}
@@ -352,12 +369,13 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
-	return s.mergeWith(spec, s2, true)
+	return s.mergeWith(spec, s2, true, nil)
 }
 
 // mergeWith merges the given Schema structure with another one, without modifying
-// it. What the other one requires is only required if keepRequired is set.
-func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) error {
+// it. What the other one requires is only required if keepRequired is set. The
+// validations of the properties that are in both are combined, if combine is set.
+func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool, combine combination) error {
 	if s == nil {
 		return nil
 	}
@@ -366,7 +384,7 @@ func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) err
 	if s.Reference != "" {
 		reference := *s
 		s.Reference, s.ReferenceTo = "", nil
-		if err := s.mergeWith(spec, reference, true); err != nil {
+		if err := s.mergeWith(spec, reference, true, nil); err != nil {
 			return err
 		}
 	}
@@ -392,7 +410,7 @@ func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) err
 	}
 
 	// Merge properties
-	s.mergeWithProperties(from.Properties, from != &s2)
+	s.mergeWithProperties(from.Properties, from != &s2, combine)
 
 	// Merge additional properties
 	if s.AdditionalProperties == nil && from.AdditionalProperties != nil {
@@ -402,7 +420,22 @@ func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) err
 	return nil
 }
 
-func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced bool) {
+// combination is a way to combine the validations of two schemas of a same element.
+type combination func(v *asyncapi.Validations[Schema], other asyncapi.Validations[Schema])
+
+func intersect(v *asyncapi.Validations[Schema], other asyncapi.Validations[Schema]) {
+	v.Intersect(other)
+}
+
+func unite(v *asyncapi.Validations[Schema], other asyncapi.Validations[Schema]) {
+	v.Unite(other)
+}
+
+func isTypeCompatible(t1, t2 string) bool {
+	return t1 == t2 || t1 == "" || t2 == ""
+}
+
+func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced bool, combine combination) {
 	merged := make(map[string]*Schema, len(s.Properties)+len(properties))
 
 	// Add the missing properties
@@ -414,6 +447,9 @@ func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced
 	// Add the existing ones
 	for k, v := range s.Properties {
 		merged[k] = v.mergeable(false)
+		if other, exists := properties[k]; exists && combine != nil && isTypeCompatible(v.Follow().Type, other.Follow().Type) {
+			combine(&merged[k].Validations, other.Validations)
+		}
 	}
 
 	// Set what is required
@@ -443,7 +479,7 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 		s2 = &Schema{ReferenceTo: s2}
 	}
 
-	return s, s.mergeWith(spec, *s2, false)
+	return s, s.mergeWith(spec, *s2, false, unite)
 }
 
 // mergeable returns a copy of the schema that can be used in another one. If the
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 961c9ea..ba07a33 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -285,9 +285,26 @@ func (s *Schema) mergeParts(spec Specification) error {
 		}
 	}
 
-	// Merge them, knowing that only what AllOf parts require is required
-	for i, v := range s.parts() {
-		if err := s.mergeWith(spec, *v, i >= len(s.AnyOf)+len(s.OneOf)); err != nil {
+	// Merge alternatives, where nothing is required
+	for _, alternatives := range [][]*Schema{s.AnyOf, s.OneOf} {
+		if len(alternatives) == 0 {
+			continue
+		}
+
+		merged := utils.ToPointer(NewSchema())
+		for _, v := range alternatives {
+			if err := merged.mergeWith(spec, *v, false, unite); err != nil {
+				return err
+			}
+		}
+		if err := s.mergeWith(spec, *merged, false, intersect); err != nil {
+			return err
+		}
+	}
+
+	// Merge AllOf parts
+	for _, v := range s.AllOf {
+		if err := s.mergeWith(spec, *v, true, intersect); err != nil {
 			return err
 		}
 	}
@@ -347,12 +364,13 @@ func (s *Schema) referenceFrom(ref []string) *Schema {
 // MergeWith merges the given Schema structure with another one
 // (basically for AllOf, AnyOf, OneOf, etc).
 func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
-	return s.mergeWith(spec, s2, true)
+	return s.mergeWith(spec, s2, true, nil)
 }
 
 // mergeWith merges the given Schema structure with another one, without modifying
-// it. What the other one requires is only required if keepRequired is set.
-func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) error {
+// it. What the other one requires is only required if keepRequired is set. The
+// validations of the properties that are in both are combined, if combine is set.
+func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool, combine combination) error {
 	if s == nil {
 		return nil
 	}
@@ -361,7 +379,7 @@ func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) err
 	if s.Reference != "" {
 		reference := *s
 		s.Reference, s.ReferenceTo = "", nil
-		if err := s.mergeWith(spec, reference, true); err != nil {
+		if err := s.mergeWith(spec, reference, true, nil); err != nil {
 			return err
 		}
 	}
@@ -387,7 +405,7 @@ func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) err
 	}
 
 	// Merge properties
-	s.mergeWithProperties(from.Properties, from != &s2)
+	s.mergeWithProperties(from.Properties, from != &s2, combine)
 
 	// Merge additional properties
 	if s.AdditionalProperties == nil && from.AdditionalProperties != nil {
@@ -397,7 +415,22 @@ func (s *Schema) mergeWith(spec Specification, s2 Schema, keepRequired bool) err
 	return nil
 }
 
-func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced bool) {
+// combination is a way to combine the validations of two schemas of a same element.
+type combination func(v *asyncapi.Validations[Schema], other asyncapi.Validations[Schema])
+
+func intersect(v *asyncapi.Validations[Schema], other asyncapi.Validations[Schema]) {
+	v.Intersect(other)
+}
+
+func unite(v *asyncapi.Validations[Schema], other asyncapi.Validations[Schema]) {
+	v.Unite(other)
+}
+
+func isTypeCompatible(t1, t2 string) bool {
+	return t1 == t2 || t1 == "" || t2 == ""
+}
+
+func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced bool, combine combination) {
 	merged := make(map[string]*Schema, len(s.Properties)+len(properties))
 
 	// Add the missing properties
@@ -409,6 +442,9 @@ func (s *Schema) mergeWithProperties(properties map[string]*Schema, isReferenced
 	// Add the existing ones
 	for k, v := range s.Properties {
 		merged[k] = v.mergeable(false)
+		if other, exists := properties[k]; exists && combine != nil && isTypeCompatible(v.Follow().Type, other.Follow().Type) {
+			combine(&merged[k].Validations, other.Validations)
+		}
 	}
 
 	// Set what is required
@@ -438,7 +474,7 @@ func (s *Schema) mergeInMessage(spec Specification, name string, s2 *Schema, isR
 		s2 = &Schema{ReferenceTo: s2}
 	}
 
-	return s, s.mergeWith(spec, *s2, false)
+	return s, s.mergeWith(spec, *s2, false, unite)
 }
 
 // mergeable returns a copy of the schema that can be used in another one. If the
-- 
2.43.0


From 52e80798a85f9b62ddc0e404547d7a621be2673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:03 +0000
Subject: [PATCH 68/79] fix: report each message without a subscribed version
 with its own context

---
 pkg/extensions/versioning/broker_subscription.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index fe98775..6ed704e 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -92,8 +92,8 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				if bs.parent.defaultVersion != nil {
 					version = *bs.parent.defaultVersion
 				} else {
-					ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
-					bs.parent.logger.Error(ctx, "no version in the message and no default version")
+					msgCtx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+					bs.parent.logger.Error(msgCtx, "no version in the message and no default version")
 					continue
 				}
 			}
@@ -108,11 +108,11 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				bs.versionsMutex.Unlock()
 
 				// Set context
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
+				msgCtx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+				msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsVersion, version)
 
 				// Log the error
-				bs.parent.logger.Error(ctx, fmt.Sprintf("version %q is not registered", version))
+				bs.parent.logger.Error(msgCtx, fmt.Sprintf("version %q is not registered", version))
 				continue
 			}
 
-- 
2.43.0


From fd6a78218772288a113d2b836a4ccf2e2ad6978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:12 +0000
Subject: [PATCH 69/79] fix: wait for the broker on the cancellation of the
 last version, even if the context of the subscription has ended

---
 pkg/extensions/versioning/version_subscription.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/versioning/version_subscription.go b/pkg/extensions/versioning/version_subscription.go
index 9ccc1b7..e8df244 100644
--- a/pkg/extensions/versioning/version_subscription.go
+++ b/pkg/extensions/versioning/version_subscription.go
@@ -29,7 +29,8 @@ func (vs *versionSubcription) launchListener(ctx context.Context) {
 	// Wait for cancellation and remove version listener when it happens
 	vs.subscription.WaitForCancellationAsync(func() {
 		// Create cancel function in case there is a problem with broker removal
-		ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
+		// NOTE: the context of the subscription can have ended since
+		ctx, cancel := context.WithTimeout(context.WithoutCancel(ctx), 10*time.Second)
 		defer cancel()
 
 		// Remove the version listener
-- 
2.43.0


From b6aa9be958f8211f234bae9f71fcecc4fd2d9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:07 +0000
Subject: [PATCH 70/79] fix: keep receiving the messages of the other versions
 when the context of the first one ends

---
 pkg/extensions/versioning/wrapper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index 48a408b..9bbca16 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -128,7 +128,11 @@ func (w *Wrapper) Subscribe(ctx context.Context, channel string) (extensions.Bro
 
 func (w *Wrapper) createBrokerChannels(ctx context.Context, channel string) (*brokerSubscription, error) {
 	// Subscribe to broker
-	subscription, err := w.broker.Subscribe(ctx, channel)
+	// NOTE: the subscription is shared with the other versions, so once it is done
+	// it should not depend on the end of the context of this one
+	subCtx, cancel := context.WithCancel(context.WithoutCancel(ctx))
+	defer context.AfterFunc(ctx, cancel)()
+	subscription, err := w.broker.Subscribe(subCtx, channel)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From de207e9db0e475c536440aff18f4cb3054879560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 71/79] fix: give an error rather than panic when there is no
 input file

---
 cmd/asyncapi-codegen/config.go | 3 +++
 cmd/asyncapi-codegen/main.go   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/cmd/asyncapi-codegen/config.go b/cmd/asyncapi-codegen/config.go
index 1d09fd8..b2da9f3 100644
--- a/cmd/asyncapi-codegen/config.go
+++ b/cmd/asyncapi-codegen/config.go
@@ -12,6 +12,9 @@ import (
 var (
 	// ErrInvalidGenerate happens when using an invalid generation argument.
 	ErrInvalidGenerate = errors.New("invalid generate argument")
+
+	// ErrNoInput happens when no input file is given.
+	ErrNoInput = errors.New("no input file")
 )
 
 // Flags contains all command line flags.
diff --git a/cmd/asyncapi-codegen/main.go b/cmd/asyncapi-codegen/main.go
index cc35f61..1979ecc 100644
--- a/cmd/asyncapi-codegen/main.go
+++ b/cmd/asyncapi-codegen/main.go
@@ -19,6 +19,10 @@ Just plug your application to your favorite message broker!
 More info on README: https://github.com/lerenn/asyncapi-codegen
 `,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
+		if len(flags.InputPaths) == 0 {
+			return ErrNoInput
+		}
+
 		cg, err := codegen.FromFile(flags.InputPaths[0], flags.InputPaths[1:]...)
 		if err != nil {
 			return err
-- 
2.43.0


From bbad0b76b4323f751983fae35cd86b20c3d1eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 72/79] fix: keep the operations that are named as the reply to
 another one

---
 pkg/codegen/generators/v3/common.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 7ba100a..aed4a9a 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -50,7 +50,13 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 		if shouldControllerRespondToReply(side, op) {
 			reply := *op.ReplyIs
 			reply.Name = "ReplyTo" + op.Name
-			ao.Send[reply.Name] = &reply
+
+			// Use a key that no other operation has
+			key := reply.Name
+			for spec.Operations[key] != nil {
+				key += "_"
+			}
+			ao.Send[key] = &reply
 		}
 	}
 
-- 
2.43.0


From b5a6c5b32669709a4c45c04f4b38d7d76b9718a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 73/79] fix: accept numbers for multipleOf

---
 pkg/asyncapi/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index 1c264d9..1583e5f 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -9,7 +9,7 @@ import (
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
 	Required         []string `json:"required"`
-	MultipleOf       []string `json:"multipleOf"`
+	MultipleOf       *float64 `json:"multipleOf"`
 	Maximum          *float64 `json:"maximum"`
 	ExclusiveMaximum *float64 `json:"exclusiveMaximum"`
 	Minimum          *float64 `json:"minimum"`
@@ -39,7 +39,7 @@ type Validations[T any] struct {
 //
 //nolint:cyclop,funlen // This function is a merge function and it is expected to have a high cyclomatic complexity.
 func (v *Validations[T]) Merge(newV Validations[T]) {
-	if len(newV.MultipleOf) > 0 {
+	if newV.MultipleOf != nil {
 		v.MultipleOf = newV.MultipleOf
 	}
 	if newV.Maximum != nil {
-- 
2.43.0


From 45a0a9182c7c3976f28c6d677e3eeeb9a5acb5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 74/79] fix: accept lists for the security of servers

---
 pkg/asyncapi/v3/server.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v3/server.go b/pkg/asyncapi/v3/server.go
index c2f53b0..d36f652 100644
--- a/pkg/asyncapi/v3/server.go
+++ b/pkg/asyncapi/v3/server.go
@@ -14,7 +14,7 @@ type Server struct {
 	Title           string                     `json:"title"`
 	Summary         string                     `json:"summary"`
 	Variables       map[string]*ServerVariable `json:"variables"`
-	Security        *SecurityScheme            `json:"security"`
+	Security        []*SecurityScheme          `json:"security"`
 	Tags            []*Tag                     `json:"tags"`
 	ExternalDocs    *ExternalDocumentation     `json:"externalDocs"`
 	Bindings        *ServerBindings            `json:"bindings"`
@@ -42,7 +42,9 @@ func (srv *Server) generateMetadata(parentName, name string) {
 	}
 
 	// Generate security metadata
-	srv.Security.generateMetadata(srv.Name, "", nil)
+	for i, sec := range srv.Security {
+		sec.generateMetadata(srv.Name, "", &i)
+	}
 
 	// Generate tags metadata
 	for i, t := range srv.Tags {
@@ -76,8 +78,10 @@ func (srv *Server) setDependencies(spec Specification) error {
 	}
 
 	// Set security dependencies
-	if err := srv.Security.setDependencies(spec); err != nil {
-		return err
+	for _, sec := range srv.Security {
+		if err := sec.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set tags dependencies
-- 
2.43.0


From 83e263efe183e6f96a352990edf631c33eba1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 75/79] fix: accept any payload in the examples of messages

---
 pkg/asyncapi/v3/message_example.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message_example.go b/pkg/asyncapi/v3/message_example.go
index b6b6458..df56d3f 100644
--- a/pkg/asyncapi/v3/message_example.go
+++ b/pkg/asyncapi/v3/message_example.go
@@ -7,7 +7,7 @@ type MessageExample struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Headers   map[string]any `json:"headers"`
-	Payload   map[string]any `json:"payload"`
+	Payload   any            `json:"payload"`
 	Name      string         `json:"name"`
 	Summary   string         `json:"summary"`
 	Reference string         `json:"$ref"`
-- 
2.43.0


From 02bbc9a07afc2b3c99f4cd2fa61261ea1ca88a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:50 +0000
Subject: [PATCH 76/79] fix: accept schemas that are booleans, or that have
 contains, additionalItems or propertyNames

---
 pkg/asyncapi/v2/schema.go | 29 +++++++++++++++++++++
 pkg/asyncapi/v3/schema.go | 55 ++++++++++++++++++++++++++++-----------
 2 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index ac9143a..1d86366 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv2
 
 import (
+	"encoding/json"
 	"slices"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -48,6 +49,9 @@ type Schema struct {
 	// isComponent indicates that the schema is directly in the components.
 	isComponent bool
 
+	// refusesAll indicates that the schema refuses everything.
+	refusesAll bool
+
 	// referencesSet indicates that the references in the schema are already set.
 	referencesSet bool
 
@@ -75,6 +79,31 @@ func NewSchema() Schema {
 	}
 }
 
+// UnmarshalJSON decodes a schema, that can be a boolean: everything is accepted
+// if it is true, and refused if it is false.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	switch string(data) {
+	case "true":
+		return nil
+	case "false":
+		s.refusesAll = true
+		return nil
+	}
+
+	// Decode without this method
+	type schema Schema
+	if err := json.Unmarshal(data, (*schema)(s)); err != nil {
+		return err
+	}
+
+	// There is no type to generate for refused additional properties
+	if s.AdditionalProperties != nil && s.AdditionalProperties.refusesAll {
+		s.AdditionalProperties = nil
+	}
+
+	return nil
+}
+
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
 	s.Name = template.Namify(name)
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index ba07a33..5b22f05 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -1,6 +1,7 @@
 package asyncapiv3
 
 import (
+	"encoding/json"
 	"maps"
 	"slices"
 
@@ -41,10 +42,10 @@ type Schema struct {
 	Properties           map[string]*Schema `json:"properties"`
 	PatternProperties    map[string]*Schema `json:"patternProperties"`
 	AdditionalProperties *Schema            `json:"additionalProperties"`
-	AdditionalItems      []*Schema          `json:"additionalItems"`
+	AdditionalItems      *Schema            `json:"additionalItems"`
 	Items                *Schema            `json:"items"`
-	PropertyNames        []string           `json:"propertyNames"`
-	Contains             []*Schema          `json:"contains"`
+	PropertyNames        *Schema            `json:"propertyNames"`
+	Contains             *Schema            `json:"contains"`
 	AllOf                []*Schema          `json:"allOf"`
 	AnyOf                []*Schema          `json:"anyOf"`
 	OneOf                []*Schema          `json:"oneOf"`
@@ -66,6 +67,9 @@ type Schema struct {
 	// isComponent indicates that the schema is directly in the components.
 	isComponent bool
 
+	// refusesAll indicates that the schema refuses everything.
+	refusesAll bool
+
 	// referencesSet indicates that the references in the schema are already set.
 	referencesSet bool
 
@@ -94,6 +98,31 @@ func NewSchema() Schema {
 	}
 }
 
+// UnmarshalJSON decodes a schema, that can be a boolean: everything is accepted
+// if it is true, and refused if it is false.
+func (s *Schema) UnmarshalJSON(data []byte) error {
+	switch string(data) {
+	case "true":
+		return nil
+	case "false":
+		s.refusesAll = true
+		return nil
+	}
+
+	// Decode without this method
+	type schema Schema
+	if err := json.Unmarshal(data, (*schema)(s)); err != nil {
+		return err
+	}
+
+	// There is no type to generate for refused additional properties
+	if s.AdditionalProperties != nil && s.AdditionalProperties.refusesAll {
+		s.AdditionalProperties = nil
+	}
+
+	return nil
+}
+
 // generateMetadata generates metadata for the Schema and its children.
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
@@ -129,10 +158,8 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Additional Items metadata
-	for i, item := range s.AdditionalItems {
-		if err := item.generateMetadata(s.Name, "Additional_Item", &i, false); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.generateMetadata(s.Name, "Additional_Item", nil, false); err != nil {
+		return err
 	}
 
 	// Generate Items metadata
@@ -142,10 +169,8 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Contains metadata
-	for i, item := range s.Contains {
-		if err := item.generateMetadata("", s.Name+"_Content", &i, false); err != nil {
-			return err
-		}
+	if err := s.Contains.generateMetadata("", s.Name+"_Content", nil, false); err != nil {
+		return err
 	}
 
 	// Generate AnyOf metadata
@@ -204,8 +229,7 @@ func (s *Schema) parts() []*Schema {
 // children returns the schemas that are directly in the schema.
 func (s *Schema) children() []*Schema {
 	children := append(s.parts(), s.AdditionalProperties, s.Items, s.Not)
-	children = append(children, s.AdditionalItems...)
-	children = append(children, s.Contains...)
+	children = append(children, s.AdditionalItems, s.Contains, s.PropertyNames)
 	for _, p := range s.Properties {
 		children = append(children, p)
 	}
@@ -515,9 +539,10 @@ func (s *Schema) clone() *Schema {
 	cloned.Properties = cloneSchemasMap(s.Properties)
 	cloned.PatternProperties = cloneSchemasMap(s.PatternProperties)
 	cloned.AdditionalProperties = s.AdditionalProperties.clone()
-	cloned.AdditionalItems = cloneSchemas(s.AdditionalItems)
+	cloned.AdditionalItems = s.AdditionalItems.clone()
 	cloned.Items = s.Items.clone()
-	cloned.Contains = cloneSchemas(s.Contains)
+	cloned.PropertyNames = s.PropertyNames.clone()
+	cloned.Contains = s.Contains.clone()
 	cloned.AllOf = cloneSchemas(s.AllOf)
 	cloned.AnyOf = cloneSchemas(s.AnyOf)
 	cloned.OneOf = cloneSchemas(s.OneOf)
-- 
2.43.0


From 065b73c9f74413c462bd533c5b4bdc6f4f2a474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 77/79] fix: generate arrays without items, and null, as values
 of any kind

---
 pkg/codegen/generators/v2/templates/schema_name.tmpl | 6 +++++-
 pkg/codegen/generators/v3/templates/schema_name.tmpl | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index d71bccd..51b0cc8 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -34,7 +34,11 @@ int64
 
 {{- /* --------------------------- Type Array --------------------------- */ -}}
 {{- else if eq .Type "array" -}}
-[]{{- template "schema-name" .Items -}}
+[]{{- if .Items -}}{{- template "schema-name" .Items -}}{{- else -}}interface{}{{- end -}}
+
+{{- /* ---------------------------- Type Null --------------------------- */ -}}
+{{- else if eq .Type "null" -}}
+interface{}
 
 {{- /* --------------------------- Type Number -------------------------- */ -}}
 {{- else if eq .Type "number" -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index b207406..d3860f7 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -34,7 +34,11 @@ int64
 
 {{- /* --------------------------- Type Array --------------------------- */ -}}
 {{- else if eq .Type "array" -}}
-[]{{- template "schema-name" .Items -}}
+[]{{- if .Items -}}{{- template "schema-name" .Items -}}{{- else -}}interface{}{{- end -}}
+
+{{- /* ---------------------------- Type Null --------------------------- */ -}}
+{{- else if eq .Type "null" -}}
+interface{}
 
 {{- /* --------------------------- Type Number -------------------------- */ -}}
 {{- else if eq .Type "number" -}}
-- 
2.43.0


From 155f58556cf4c4f4f51e1f5cbb210136771f2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 78/79] fix: only handle as dates the schemas that are strings

---
 pkg/codegen/generators/v2/templates/schema_definition.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/schema_definition.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index 7f2cba4..c31f2b5 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -35,7 +35,7 @@ type {{ namify .Name }} struct {
 type {{ namify .Name }} {{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
-{{- if isDateOrDateTimeGenerated .Format -}}
+{{- if and (eq .Type "string") (isDateOrDateTimeGenerated .Format) -}}
     {{template "marshaling-time" .}}
 {{- end -}}
 
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index 7f2cba4..c31f2b5 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -35,7 +35,7 @@ type {{ namify .Name }} struct {
 type {{ namify .Name }} {{template "schema-name" .}}
 
 {{/* Create specific marshaling for time */ -}}
-{{- if isDateOrDateTimeGenerated .Format -}}
+{{- if and (eq .Type "string") (isDateOrDateTimeGenerated .Format) -}}
     {{template "marshaling-time" .}}
 {{- end -}}
 
-- 
2.43.0


From c9a3f98b199ee5e39f110ea434841582b5e25685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 79/79] fix: do not validate with constraints that are for
 other types

---
 pkg/codegen/generators/helpers.go             | 55 ++++++++++++++-----
 .../generators/v2/templates/helpers.go        |  1 +
 .../v2/templates/schema_definition.tmpl       |  2 +-
 .../generators/v3/templates/helpers.go        |  1 +
 .../v3/templates/schema_definition.tmpl       |  2 +-
 5 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 713b1f4..35f676d 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -3,6 +3,7 @@ package generators
 import (
 	"fmt"
 	"math"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -64,23 +65,26 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 		directives = append(directives, "required")
 	}
 
-	directives = appendLengthDirective(directives, "min", schema.MinLength)
-	directives = appendLengthDirective(directives, "max", schema.MaxLength)
-	directives = appendBoundDirective(directives, "gte", schema.Minimum, schemaType, math.Ceil)
-	directives = appendBoundDirective(directives, "lte", schema.Maximum, schemaType, math.Floor)
-	directives = appendBoundDirective(directives, "gt", schema.ExclusiveMinimum, schemaType, math.Floor)
-	directives = appendBoundDirective(directives, "lt", schema.ExclusiveMaximum, schemaType, math.Ceil)
+	// NOTE: constraints do not apply to values of other types than the ones they are for
+	if isTypeIn(schemaType, "string", "array") {
+		directives = appendLengthDirective(directives, "min", schema.MinLength)
+		directives = appendLengthDirective(directives, "max", schema.MaxLength)
+	}
+
+	if isTypeIn(schemaType, "integer", "number") {
+		directives = appendBoundDirective(directives, "gte", schema.Minimum, schemaType, math.Ceil)
+		directives = appendBoundDirective(directives, "lte", schema.Maximum, schemaType, math.Floor)
+		directives = appendBoundDirective(directives, "gt", schema.ExclusiveMinimum, schemaType, math.Floor)
+		directives = appendBoundDirective(directives, "lt", schema.ExclusiveMaximum, schemaType, math.Ceil)
+	}
 
-	if schema.UniqueItems {
+	if schema.UniqueItems && isTypeIn(schemaType, "array") {
 		directives = append(directives, "unique")
 	}
 
-	directives = appendEnumDirectives(schema, directives)
-	if schema.Const != nil {
-		if cStr, ok := schema.Const.(string); ok {
-			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, "eq="+escapeParam(cStr))
-		}
+	if isTypeIn(schemaType, "string") {
+		directives = appendEnumDirectives(schema, directives)
+		directives = appendConstDirective(schema, directives)
 	}
 
 	if len(directives) > 0 {
@@ -94,6 +98,31 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	}
 }
 
+// dateType is the validated type of the strings that are generated as dates.
+const dateType = "date"
+
+// ValidatedType returns the type of the values from the validation point of view,
+// based on the type and the format of their schema.
+func ValidatedType(schemaType, format string) string {
+	if schemaType == "string" && template.IsDateOrDateTimeGenerated(format) {
+		return dateType
+	}
+	return schemaType
+}
+
+// isTypeIn checks that a type is one of the given ones, or is not known.
+func isTypeIn(schemaType string, types ...string) bool {
+	return schemaType == "" || slices.Contains(types, schemaType)
+}
+
+func appendConstDirective[T any](schema asyncapi.Validations[T], directives []string) []string {
+	// Only generate const if it is a string, otherwise this is unsupported
+	if cStr, ok := schema.Const.(string); ok {
+		return append(directives, "eq="+escapeParam(cStr))
+	}
+	return directives
+}
+
 // quoteTag quotes the value of a struct tag, which can then be used in a raw string.
 func quoteTag(value string) string {
 	return strings.ReplaceAll(strconv.Quote(value), "`", "\\x60")
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 3fc1f95..2f7c29e 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -218,6 +218,7 @@ func HelpersFunctions() template.FuncMap {
 		"operationName":                  OperationName,
 		"referenceToTypeName":            ReferenceToTypeName,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
+		"validatedType":                  generators.ValidatedType,
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
 }
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index c31f2b5..d039edc 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) (validatedType $value.Follow.Type $value.Follow.Format) }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index d93a31d..119dacd 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -263,6 +263,7 @@ func HelpersFunctions() template.FuncMap {
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"locationSteps":                  LocationSteps,
 		"generateValidateTags":           generators.GenerateValidateTags[asyncapi.Schema],
+		"validatedType":                  generators.ValidatedType,
 		"generateJSONTags":               generators.GenerateJSONTags[asyncapi.Schema],
 	}
 }
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index c31f2b5..d039edc 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Follow.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) (validatedType $value.Follow.Type $value.Follow.Format) }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0

