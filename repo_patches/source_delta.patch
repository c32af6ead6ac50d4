From f11497d7210a2c0c8480dcd5f8d77db2ac86c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 01/32] fix: accept bank transactions that correct an earlier
 one

The check on CORRECTACTION was inverted: a transaction with CORRECTFITID and
a valid CORRECTACTION was rejected, one without an action was accepted.
---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 25a2f345cf0dce51a94ea07af429da578a3838f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 02/32] fix: decode LOANINFO aggregates of 401(k) statements

LoanInfo claimed to be a VESTINFO element, so a statement holding a LOANINFO
could not be parsed.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..dc7cea5 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
-- 
2.43.0


From b41dee66aea8ad9f7212f0659f8210eb2ac27c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 03/32] fix: treat SUBACCTFUND as a leaf element

Unclosed SUBACCTFUND elements, as used by investment transactions in SGML
responses, swallowed what followed them.
---
 leaf_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..a3a3ef4 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -284,6 +284,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
-- 
2.43.0


From e25be4ef2b62c58e03b373e9caa079076bfcbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 04/32] fix: close the body of unsuccessful responses in
 Request()

The connection of every response with a status other than 200 leaked.
---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index a9d43dd..fafe639 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,11 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		// RawRequest returns the response along with the error if it isn't
+		// successful, and nobody else is going to close it
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
-- 
2.43.0


From 587e46f1344a914a23f5193c60363d3f9321a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 05/32] fix: don't follow redirects of requests to non-https
 URLs

307 and 308 redirects sent the whole request, including the password, in plain
text.
---
 basic_client.go    | 23 ++++++++++++++++++++++-
 vanguard_client.go |  4 ++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..1d38d72 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -65,6 +65,27 @@ func (c *BasicClient) CarriageReturnNewLines() bool {
 	return c.CarriageReturn
 }
 
+// refuseInsecureRedirects returns a copy of an http.Client that doesn't follow
+// redirects to anything but https URLs. Requests contain passwords, and 307 and
+// 308 redirects re-send them.
+func refuseInsecureRedirects(client *http.Client) *http.Client {
+	secureClient := *client
+	secureClient.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if client.CheckRedirect != nil {
+			if err := client.CheckRedirect(req, via); err != nil {
+				return err
+			}
+		} else if len(via) >= 10 {
+			return errors.New("stopped after 10 redirects")
+		}
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request to non-https protocol")
+		}
+		return nil
+	}
+	return &secureClient
+}
+
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
 // when you need to read/inspect the raw HTTP response yourself.
 func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error) {
@@ -86,7 +107,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := refuseInsecureRedirects(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..bff073b 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -64,7 +64,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
 	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := refuseInsecureRedirects(client).Do(request)
 	if err != nil {
 		return nil, err
 	}
@@ -94,7 +94,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := refuseInsecureRedirects(client).Do(request)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d5449662c80ce7a6f889615c2080b67305542915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 06/32] fix: release the connections of Vanguard requests

Every request used an http.Transport of its own, whose connection stayed open
and idle forever. The body of an unsuccessful answer to the second request of
the cookie handshake was not closed by anyone.
---
 vanguard_client.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index bff073b..711b732 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"strings"
+	"time"
 )
 
 // VanguardClient provides a Client implementation which handles Vanguard's
@@ -43,11 +44,16 @@ func vanguardHttpClient() *http.Client {
 			TLSClientConfig: &tls.Config{
 				CipherSuites: clientCiphers,
 			},
+			IdleConnTimeout: 90 * time.Second,
 		},
 	}
 	return client
 }
 
+// sharedVanguardClient is used for all requests, so that their connections are
+// reused instead of being left idle forever
+var sharedVanguardClient = vanguardHttpClient()
+
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
 // that enables older cipher suites.
 func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, error) {
@@ -63,8 +69,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	client := vanguardHttpClient()
-	response, err := refuseInsecureRedirects(client).Do(request)
+	response, err := refuseInsecureRedirects(sharedVanguardClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
@@ -93,14 +98,13 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		request.AddCookie(cookie)
 	}
 
-	client := vanguardHttpClient()
-	response, err := refuseInsecureRedirects(client).Do(request)
+	response, err := refuseInsecureRedirects(sharedVanguardClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
 
 	if response.StatusCode != 200 {
-		return nil, errors.New("OFXQuery request status: " + response.Status)
+		return response, errors.New("OFXQuery request status: " + response.Status)
 	}
 
 	return response, nil
-- 
2.43.0


From 39944a0baff9b746d5b9fe14aeae836e9345b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 07/32] fix: only repeat Vanguard requests after empty,
 successful responses

Requests were also sent again after responses with an error status and after
responses that didn't announce their length (as chunked ones), whose contents
were lost. The body of the first response was never closed.
---
 vanguard_client.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 711b732..acc0d27 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"bufio"
 	"crypto/tls"
 	"errors"
 	"io"
@@ -121,13 +122,29 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	}
 
 	response, err := c.RawRequest(r.URL, b)
+	if err != nil {
+		return response, err
+	}
 
 	// Some financial institutions (cough, Vanguard, cough), require a cookie
 	// to be set on the http request, or they return empty responses.
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		// The length is unknown if it wasn't announced (for instance, if the
+		// body is chunked), so check if there really isn't anything
+		body := bufio.NewReader(response.Body)
+		_, err = body.Peek(1)
+		if err == nil {
+			response.Body = peekedBody{body, response.Body}
+			return response, nil
+		}
+		response.Body.Close()
+		if err != io.EOF {
+			return nil, err
+		}
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
@@ -136,7 +153,13 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
-	return response, err
+	return response, nil
+}
+
+// peekedBody is a http.Response Body which has been partially read into Reader
+type peekedBody struct {
+	io.Reader
+	io.Closer
 }
 
 // Request marshals a Request to XML, makes an HTTP request, and then
-- 
2.43.0


From fb081b98d17eea92e3e0dae197c550999f1bd690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 08/32] fix: send the configured User-Agent along with
 Vanguard's cookies too

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index acc0d27..0677e1e 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -85,7 +85,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func (c *VanguardClient) rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -95,6 +95,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if c.UserAgent != "" {
+		request.Header.Set("User-Agent", c.UserAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -150,7 +153,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
 	return response, nil
-- 
2.43.0


From 3b65362e147846a5394a1767c801a438c2e4bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 09/32] fix: send escaped path and query of Discover URLs

The path was sent unescaped, which resulted in malformed requests, and the
query wasn't sent at all.
---
 discovercard_client.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..645992b 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,11 +42,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
-	if path == "" {
-		path = "/"
-	}
-
 	// Discover requires only these headers and in this exact order, or it
 	// returns HTTP 403
 	headers := fmt.Sprintf("POST %s HTTP/1.1\r\n"+
@@ -54,7 +49,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		"Host: %s\r\n"+
 		"Content-Length: %d\r\n"+
 		"Connection: Keep-Alive\r\n"+
-		"\r\n", path, url.Hostname(), buf.Len())
+		"\r\n", url.RequestURI(), url.Hostname(), buf.Len())
 
 	host := url.Host
 	if url.Port() == "" {
-- 
2.43.0


From 2fd199dce418b5c2fece9ba91cf1654658dd0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 10/32] fix: close the connections of the Discover client

None of them was ever closed, and errors sending the headers were ignored.
---
 discovercard_client.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 645992b..cdd19bb 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -56,20 +56,36 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		host += ":443"
 	}
 
-	// BUGBUG: cannot do defer conn.Close() until body is read,
-	// we are "leaking" a socket here, but it will be finalized
 	conn, err := tls.Dial("tcp", host, nil)
 	if err != nil {
 		return nil, err
 	}
 
-	fmt.Fprint(conn, headers)
+	_, err = fmt.Fprint(conn, headers)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
 	_, err = io.Copy(conn, buf)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-	return http.ReadResponse(bufio.NewReader(conn), nil)
+	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+	response.Body = discoverCardBody{response.Body, conn}
+	return response, nil
+}
+
+// discoverCardBody is a http.Response Body which closes the connection it is
+// read from when it is closed itself
+type discoverCardBody struct {
+	io.Reader
+	io.Closer
 }
 
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
@@ -85,6 +101,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
-- 
2.43.0


From 3b30a25a2f26aab81df6b0a702b2f79b4fee1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 11/32] fix: format dates of all time zones such that they can
 be parsed

The sign of offsets between -1h and 0 got lost, the time zone names made up for
zones without an abbreviation (like "-03") were printed although they aren't
accepted, and offsets which aren't a multiple of 36 seconds were truncated.
---
 types.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index dda6a3f..3acd264 100644
--- a/types.go
+++ b/types.go
@@ -98,6 +98,7 @@ var ofxDateFormats = []string{
 	"20060102",
 }
 var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`)
+var ofxDateZoneNameRegex = regexp.MustCompile(`^[A-Z]+$`)
 
 // UnmarshalXML handles unmarshalling a Date from an SGML/XML string. It
 // attempts to unmarshal the valid date formats in order of decreasing length
@@ -167,10 +168,15 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 // String returns a string representation of the Date abiding by the OFX spec
 func (od Date) String() string {
-	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
+	if zoneoffset%36 != 0 {
+		// Offsets are in hundredths of an hour, so we can't represent this one
+		od.Time = od.In(gmt)
+		zonename, zoneoffset = od.Zone()
+	}
+	format := od.Format(ofxDateFormats[0])
 	if zoneoffset < 0 {
-		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
+		format += "[-" + fmt.Sprintf("%d", -zoneoffset/3600)
 	} else {
 		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
 	}
@@ -181,7 +187,9 @@ func (od Date) String() string {
 		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
 	}
 
-	if len(zonename) > 0 {
+	// Zones without an abbreviation of their own are named after their offset,
+	// which isn't a valid OFX time zone name
+	if ofxDateZoneNameRegex.MatchString(zonename) {
 		return format + ":" + zonename + "]"
 	}
 	return format + "]"
-- 
2.43.0


From a606901b9146b94b284da4e5acab70cd57660df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 12/32] fix: parse time zone offsets of dates exactly

The sign of offsets between -1h and 0 was ignored, and offsets which aren't a
multiple of a minute were truncated.
---
 types.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index 3acd264..ed9b2e2 100644
--- a/types.go
+++ b/types.go
@@ -118,7 +118,7 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	split := strings.SplitN(value, "[", 2)
 	if len(split) == 2 {
 		value = split[0]
-		zoneFormat = " -0700"
+		zoneFormat = " -070000"
 		zone = strings.TrimRight(split[1], "]")
 
 		matches := ofxDateZoneRegex.FindStringSubmatch(zone)
@@ -126,26 +126,30 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return errors.New("Invalid OFX Date timezone format: " + zone)
 		}
 		var err error
-		var zonehours, zoneminutes int
+		var zonehours, zonehundredths int
 		zonehours, err = strconv.Atoi(matches[1])
 		if err != nil {
 			return err
 		}
 		if len(matches[3]) > 0 {
-			zoneminutes, err = strconv.Atoi(matches[3])
+			zonehundredths, err = strconv.Atoi(matches[3])
 			if err != nil {
 				return err
 			}
-			zoneminutes = zoneminutes * 60 / 100
 		}
-		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		zonesign := "+"
+		if strings.HasPrefix(matches[1], "-") {
+			zonesign = "-"
+			zonehours = -zonehours
+		}
+		zone = fmt.Sprintf(" %s%02d%02d%02d", zonesign, zonehours, zonehundredths*36/60, zonehundredths*36%60)
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
 		if len(matches[5]) > 0 {
 			zone = zone + " " + matches[5]
 			zoneFormat = zoneFormat + " MST"
-		} else if zonehours == 0 && zoneminutes == 0 {
+		} else if zonehours == 0 && zonehundredths == 0 {
 			zone = zone + " GMT"
 			zoneFormat = zoneFormat + " MST"
 		}
-- 
2.43.0


From 830aebeecbe213a6703f91577a81602e8a51d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 13/32] fix: don't lose reader errors while guessing the OFX
 version

bufio.Reader.Peek consumes the error of the underlying reader. If that
reader goes on afterwards (a retrying or non-sticky reader), the failure
was forgotten and the response accepted.
---
 response.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/response.go b/response.go
index 61f471e..66dff60 100644
--- a/response.go
+++ b/response.go
@@ -179,6 +179,22 @@ func (or *Response) readXMLHeaders(decoder *xml.Decoder) error {
 	return nil
 }
 
+// stickyErrReader keeps returning the first error of the reader it wraps. It
+// ensures an error encountered while peeking ahead isn't forgotten.
+type stickyErrReader struct {
+	reader io.Reader
+	err    error
+}
+
+func (s *stickyErrReader) Read(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.reader.Read(p)
+	s.err = err
+	return n, err
+}
+
 // Number of bytes of response to read when attempting to figure out whether
 // we're using OFX or SGML
 const guessVersionCheckBytes = 1024
@@ -284,7 +300,7 @@ func ParseResponse(reader io.Reader) (*Response, error) {
 func DecodeResponse(reader io.Reader) (*Response, error) {
 	var or Response
 
-	r := bufio.NewReaderSize(reader, guessVersionCheckBytes)
+	r := bufio.NewReaderSize(&stickyErrReader{reader: reader}, guessVersionCheckBytes)
 	xmlVersion, err := guessVersion(r)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 699a2e3a96fb81aa77d593c6789d19d365225852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 14/32] fix: don't marshal MessageSet.Name as an element of its
 own

It is a copy of the element's name, and OFX has no <Name> element.
---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From d1ee60e90a9a7282a5a0f735596d79c15c7ad583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 15/32] fix: marshal profiles whose message sets have versions
 other than 1

---
 profile.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/profile.go b/profile.go
index 433113b..d5944df 100644
--- a/profile.go
+++ b/profile.go
@@ -134,10 +134,12 @@ func (msl *MessageSetList) MarshalXML(e *xml.Encoder, start xml.StartElement) er
 		return err
 	}
 	for _, messageset := range *msl {
-		if !strings.HasSuffix(messageset.Name, "V1") {
-			return errors.New("Expected MessageSet.Name to end with \"V1\"")
+		// The containing element is named the same, without the version
+		messageSetName := strings.TrimRight(messageset.Name, "0123456789")
+		if messageSetName == messageset.Name || !strings.HasSuffix(messageSetName, "V") {
+			return errors.New("Expected MessageSet.Name to end with \"V\" and the version of the message set")
 		}
-		messageSetName := strings.TrimSuffix(messageset.Name, "V1")
+		messageSetName = strings.TrimSuffix(messageSetName, "V")
 		messageSetElement := xml.StartElement{Name: xml.Name{Local: messageSetName}}
 		if err := e.EncodeToken(messageSetElement); err != nil {
 			return err
-- 
2.43.0


From 52d3e6ce8bf393d89028d6d24080f131ff2551c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 16/32] fix: report unsupported versions when marshalling

Request.Marshal and Response.Marshal ignored the error of writeHeader and
returned documents without any OFX header.
---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 66dff60..c28b02c 100644
--- a/response.go
+++ b/response.go
@@ -431,7 +431,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From 30412e9beeab9bc41c1e3481a510f6fd3171078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 17/32] fix: validate the account and version of credit card
 statement requests

---
 creditcard.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/creditcard.go b/creditcard.go
index 365b2eb..1d73a15 100644
--- a/creditcard.go
+++ b/creditcard.go
@@ -1,6 +1,8 @@
 package ofxgo
 
 import (
+	"errors"
+
 	"github.com/aclindsa/xml"
 )
 
@@ -32,8 +34,13 @@ func (r *CCStatementRequest) Valid(version ofxVersion) (bool, error) {
 	if ok, err := r.TrnUID.Valid(); !ok {
 		return false, err
 	}
-	// TODO implement
-	return true, nil
+	if r.IncludePending && version < OfxVersion220 {
+		return false, errors.New("CCStatementRequest.IncludePending invalid for OFX < 2.2")
+	}
+	if r.IncTranImg && version < OfxVersion210 {
+		return false, errors.New("CCStatementRequest.IncTranImg invalid for OFX < 2.1")
+	}
+	return r.CCAcctFrom.Valid()
 }
 
 // Type returns which message set this message belongs to (which Request
-- 
2.43.0


From 01dd3f8d48fa094b8e05c4495de8deed9ff49f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 18/32] fix: only accept amounts made of decimal digits

---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index ed9b2e2..1860177 100644
--- a/types.go
+++ b/types.go
@@ -48,6 +48,8 @@ type Amount struct {
 	big.Rat
 }
 
+var ofxAmountRegex = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)$`)
+
 // UnmarshalXML handles unmarshalling an Amount from an SGML/XML string.
 // Leading and trailing whitespace is ignored.
 func (a *Amount) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
@@ -64,6 +66,12 @@ func (a *Amount) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	// by a comma, so fix that up before attempting to parse it into big.Rat
 	value = strings.Replace(value, ",", ".", 1)
 
+	// big.Rat also understands fractions, exponents, digit separators and
+	// other bases, none of which are OFX amounts (and a huge exponent in a few
+	// bytes of input takes an enormous amount of memory to represent)
+	if !ofxAmountRegex.MatchString(value) {
+		return errors.New("Failed to parse OFX amount")
+	}
 	if _, ok := a.SetString(value); !ok {
 		return errors.New("Failed to parse OFX amount")
 	}
-- 
2.43.0


From 09da8a5da0d536f30883d4e9a31ac1d1fc4d9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 19/32] fix: don't crash listing statements without optional
 aggregates

Statements without a transaction list or investment balance, and credit
card transactions with neither NAME nor PAYEE, are valid but made the
transactions-* commands dereference a nil pointer.
---
 cmd/ofx/banktransactions.go |  6 ++++--
 cmd/ofx/cctransactions.go   | 20 +++-----------------
 cmd/ofx/invtransactions.go  | 11 ++++++++---
 3 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..5b7b715 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -74,8 +74,10 @@ func bankTransactions() {
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
-		for _, tran := range stmt.BankTranList.Transactions {
-			printTransaction(stmt.CurDef, &tran)
+		if stmt.BankTranList != nil {
+			for _, tran := range stmt.BankTranList.Transactions {
+				printTransaction(stmt.CurDef, &tran)
+			}
 		}
 	}
 }
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..ba39e48 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -63,24 +63,10 @@ func ccTransactions() {
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
-		for _, tran := range stmt.BankTranList.Transactions {
-			currency := stmt.CurDef
-			if tran.Currency != nil {
-				currency = tran.Currency.CurSym
+		if stmt.BankTranList != nil {
+			for _, tran := range stmt.BankTranList.Transactions {
+				printTransaction(stmt.CurDef, &tran)
 			}
-
-			var name string
-			if len(tran.Name) > 0 {
-				name = string(tran.Name)
-			} else {
-				name = string(tran.Payee.Name)
-			}
-
-			if len(tran.Memo) > 0 {
-				name = name + " - " + string(tran.Memo)
-			}
-
-			fmt.Printf("%s %-15s %-11s %s\n", tran.DtPosted, tran.TrnAmt.String()+" "+currency.String(), tran.TrnType, name)
 		}
 	}
 }
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..5cd8984 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,9 +67,14 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
-			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
+		if stmt.InvBal != nil {
+			availCash := stmt.InvBal.AvailCash
+			if availCash.IsInt() && availCash.Num().Int64() != 0 {
+				fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
+			}
+		}
+		if stmt.InvTranList == nil {
+			return
 		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
-- 
2.43.0


From 691d5e9017537b0d205f0815e0dcbc24c99fe608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 20/32] fix: print fractional investment cash balances

transactions-inv left out the balance unless it was a whole number.
---
 cmd/ofx/invtransactions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 5cd8984..45a7a5a 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -69,7 +69,7 @@ func invTransactions() {
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
 		if stmt.InvBal != nil {
 			availCash := stmt.InvBal.AvailCash
-			if availCash.IsInt() && availCash.Num().Int64() != 0 {
+			if availCash.Sign() != 0 {
 				fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 			}
 		}
-- 
2.43.0


From 7cc75dadadd4564c26dee0883d77ebf37a107676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 21/32] fix: report why transactions-inv failed

It exited with status 1 and no message when the request failed.
---
 cmd/ofx/invtransactions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 45a7a5a..dacd92b 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
-- 
2.43.0


From 7996bb03b63e2b25519330558d5506c26b19ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 22/32] fix: fail downloads whose file can't be closed

Some file systems report that data couldn't be written only when the file
is closed. The download commands ignored that and exited with status 0.
---
 cmd/ofx/bankdownload.go    | 5 +++++
 cmd/ofx/ccdownload.go      | 5 +++++
 cmd/ofx/invdownload.go     | 5 +++++
 cmd/ofx/profiledownload.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/cmd/ofx/bankdownload.go b/cmd/ofx/bankdownload.go
index 8465915..3ef0a19 100644
--- a/cmd/ofx/bankdownload.go
+++ b/cmd/ofx/bankdownload.go
@@ -88,4 +88,9 @@ func download() {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	if err := file.Close(); err != nil {
+		fmt.Println("Error writing response to file:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/ofx/ccdownload.go b/cmd/ofx/ccdownload.go
index 307f118..4b98fad 100644
--- a/cmd/ofx/ccdownload.go
+++ b/cmd/ofx/ccdownload.go
@@ -76,4 +76,9 @@ func ccDownload() {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	if err := file.Close(); err != nil {
+		fmt.Println("Error writing response to file:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/ofx/invdownload.go b/cmd/ofx/invdownload.go
index 7a57979..1de9847 100644
--- a/cmd/ofx/invdownload.go
+++ b/cmd/ofx/invdownload.go
@@ -86,4 +86,9 @@ func invDownload() {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	if err := file.Close(); err != nil {
+		fmt.Println("Error writing response to file:", err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/ofx/profiledownload.go b/cmd/ofx/profiledownload.go
index cca6986..fd4f460 100644
--- a/cmd/ofx/profiledownload.go
+++ b/cmd/ofx/profiledownload.go
@@ -78,4 +78,9 @@ func downloadProfile() {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
 	}
+
+	if err := file.Close(); err != nil {
+		fmt.Println("Error writing response to file:", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 182d7d372dd924827acc495430b05a4b89681ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 23/32] fix: exit with status 1 if a dry run's request is
 invalid

---
 cmd/ofx/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 33f5a65..39ee1c5 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -38,8 +38,8 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 
 	b, err := r.Marshal()
 	if err != nil {
-		fmt.Println(err)
-		return
+		fmt.Println("Error marshaling request:", err)
+		os.Exit(1)
 	}
 	fmt.Println(b)
 }
-- 
2.43.0


From 70a8e6750ec43527900da1e49574d02e7efdb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 24/32] fix: list every account of an ACCTINFO aggregate

An ACCTINFO may describe several accounts (for instance a bank account and
a credit card), but get-accounts printed only the first.
---
 cmd/ofx/get_accounts.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/ofx/get_accounts.go b/cmd/ofx/get_accounts.go
index f384e12..2099afe 100644
--- a/cmd/ofx/get_accounts.go
+++ b/cmd/ofx/get_accounts.go
@@ -63,11 +63,14 @@ func getAccounts() {
 		for _, acct := range acctinfo.AcctInfo {
 			if acct.BankAcctInfo != nil {
 				fmt.Printf("Bank Account:\n\tBankID: \"%s\"\n\tAcctID: \"%s\"\n\tAcctType: %s\n", acct.BankAcctInfo.BankAcctFrom.BankID, acct.BankAcctInfo.BankAcctFrom.AcctID, acct.BankAcctInfo.BankAcctFrom.AcctType)
-			} else if acct.CCAcctInfo != nil {
+			}
+			if acct.CCAcctInfo != nil {
 				fmt.Printf("Credit card:\n\tAcctID: \"%s\"\n", acct.CCAcctInfo.CCAcctFrom.AcctID)
-			} else if acct.InvAcctInfo != nil {
+			}
+			if acct.InvAcctInfo != nil {
 				fmt.Printf("Investment account:\n\tBrokerID: \"%s\"\n\tAcctID: \"%s\"\n", acct.InvAcctInfo.InvAcctFrom.BrokerID, acct.InvAcctInfo.InvAcctFrom.AcctID)
-			} else {
+			}
+			if acct.BankAcctInfo == nil && acct.CCAcctInfo == nil && acct.InvAcctInfo == nil {
 				fmt.Printf("Unknown type: %s %s\n", acct.Name, acct.Desc)
 			}
 		}
-- 
2.43.0


From 0b0518e5e090e1ad81d4ab9806e715ecaf6c0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 25/32] fix: accept bank statement errors without a statement

The specification has servers omit STMTRS when the STATUS of a STMTTRNRS is
an error, but such responses were refused altogether, so their status could
never be read.
---
 bank.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bank.go b/bank.go
index 19caefc..e71e517 100644
--- a/bank.go
+++ b/bank.go
@@ -322,6 +322,20 @@ func (sr *StatementResponse) Name() string {
 	return "STMTTRNRS"
 }
 
+// hasStatement returns whether any part of the STMTRS aggregate is present
+func (sr *StatementResponse) hasStatement() bool {
+	var emptyDate Date
+	hasCurDef, _ := sr.CurDef.Valid()
+	acct := sr.BankAcctFrom
+	return hasCurDef ||
+		acct.BankID != "" || acct.BranchID != "" || acct.AcctID != "" || acct.AcctType.Valid() || acct.AcctKey != "" ||
+		sr.BankTranList != nil || sr.BankTranListP != nil ||
+		sr.BalAmt.Sign() != 0 || !sr.DtAsOf.Equal(emptyDate) ||
+		sr.AvailBalAmt != nil || sr.AvailDtAsOf != nil ||
+		sr.CashAdvBalAmt != nil || sr.IntRate != nil ||
+		len(sr.BalList) != 0 || sr.MktgInfo != ""
+}
+
 // Valid returns (true, nil) if this struct was valid OFX when unmarshalled
 func (sr *StatementResponse) Valid(version ofxVersion) (bool, error) {
 	var emptyDate Date
@@ -329,6 +343,9 @@ func (sr *StatementResponse) Valid(version ofxVersion) (bool, error) {
 		return false, err
 	} else if ok, err := sr.Status.Valid(); !ok {
 		return false, err
+	} else if sr.Status.Severity == "ERROR" && !sr.hasStatement() {
+		// Servers send no STMTRS with an error
+		return true, nil
 	} else if ok, err := sr.CurDef.Valid(); !ok {
 		return false, err
 	} else if ok, err := sr.BankAcctFrom.Valid(); !ok {
-- 
2.43.0


From 633d17b920f13fd296284dbedf65a026b8169eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 26/32] fix: report statement and account errors and exit with
 status 1

The listing commands only looked at the status of the sign-on: a statement
the server answered with an error was shown as a balance of 0 in an unknown
currency, or as nothing, and the exit status was 0.
---
 cmd/ofx/banktransactions.go | 1 +
 cmd/ofx/cctransactions.go   | 1 +
 cmd/ofx/get_accounts.go     | 6 ++++--
 cmd/ofx/invtransactions.go  | 1 +
 cmd/ofx/util.go             | 9 +++++++++
 5 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 5b7b715..2189fd0 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -72,6 +72,7 @@ func bankTransactions() {
 	}
 
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
+		checkStatus("account statement", &stmt.Status)
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
 		if stmt.BankTranList != nil {
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index ba39e48..08c3d02 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -61,6 +61,7 @@ func ccTransactions() {
 	}
 
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
+		checkStatus("account statement", &stmt.Status)
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
 		if stmt.BankTranList != nil {
diff --git a/cmd/ofx/get_accounts.go b/cmd/ofx/get_accounts.go
index 2099afe..14be13a 100644
--- a/cmd/ofx/get_accounts.go
+++ b/cmd/ofx/get_accounts.go
@@ -57,9 +57,11 @@ func getAccounts() {
 		return
 	}
 
-	fmt.Printf("\nFound the following accounts:\n\n")
-
 	if acctinfo, ok := response.Signup[0].(*ofxgo.AcctInfoResponse); ok {
+		checkStatus("account information", &acctinfo.Status)
+
+		fmt.Printf("\nFound the following accounts:\n\n")
+
 		for _, acct := range acctinfo.AcctInfo {
 			if acct.BankAcctInfo != nil {
 				fmt.Printf("Bank Account:\n\tBankID: \"%s\"\n\tAcctID: \"%s\"\n\tAcctType: %s\n", acct.BankAcctInfo.BankAcctFrom.BankID, acct.BankAcctInfo.BankAcctFrom.AcctID, acct.BankAcctInfo.BankAcctFrom.AcctType)
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index dacd92b..8baca7a 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -68,6 +68,7 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
+		checkStatus("account statement", &stmt.Status)
 		if stmt.InvBal != nil {
 			availCash := stmt.InvBal.AvailCash
 			if availCash.Sign() != 0 {
diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 39ee1c5..29c8fe4 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -43,3 +43,12 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 	}
 	fmt.Println(b)
 }
+
+// checkStatus exits if the server answered a request with an error
+func checkStatus(request string, status *ofxgo.Status) {
+	if status.Severity == "ERROR" {
+		meaning, _ := status.CodeMeaning()
+		fmt.Printf("Error status for %s (%d: %s) with message: %s\n", request, status.Code, meaning, status.Message)
+		os.Exit(1)
+	}
+}
-- 
2.43.0


From 6f874126d5e5cc45b4875b230d1ebf6143513d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 27/32] fix: decode &nbsp;

It is one of the escape sequences of the OFX specification. XML responses
using it were refused, and SGML responses kept it verbatim.
---
 response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response.go b/response.go
index c28b02c..d4b7e32 100644
--- a/response.go
+++ b/response.go
@@ -318,6 +318,8 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		decoder.Strict = false
 		decoder.AutoCloseAfterCharData = ofxLeafElements
 	}
+	// OFX has one escape sequence more than XML
+	decoder.Entity = map[string]string{"nbsp": " "}
 	decoder.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
 		return input, nil
 	}
-- 
2.43.0


From 40903b284cba0d3a678ef2c898f249143d165f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 28/32] fix: accept responses starting with a byte order mark

UTF-8 XML documents may start with one; such responses were refused with
"Missing xml processing instruction".
---
 response.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/response.go b/response.go
index d4b7e32..d676d52 100644
--- a/response.go
+++ b/response.go
@@ -306,6 +306,13 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		return nil, err
 	}
 
+	// skip the byte order mark, if any
+	if bom, _ := r.Peek(3); string(bom) == "\xef\xbb\xbf" {
+		if _, err := r.Discard(3); err != nil {
+			return nil, err
+		}
+	}
+
 	// parse SGML headers before creating XML decoder
 	if !xmlVersion {
 		if err := or.readSGMLHeaders(r); err != nil {
-- 
2.43.0


From 0425d0a1860d3dab1b10ccfcbcc4daffb181453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 29/32] fix: refuse amounts of absurd length, which take
 quadratic time and memory to parse

---
 types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 1860177..9a6a446 100644
--- a/types.go
+++ b/types.go
@@ -48,6 +48,11 @@ type Amount struct {
 	big.Rat
 }
 
+// The OFX spec limits amounts to 32 characters. Be more forgiving than that, but
+// not indefinitely: it takes big.Rat time and memory quadratic in the length of
+// a number to parse it.
+const maxAmountLength = 1024
+
 var ofxAmountRegex = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)$`)
 
 // UnmarshalXML handles unmarshalling an Amount from an SGML/XML string.
@@ -69,7 +74,7 @@ func (a *Amount) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	// big.Rat also understands fractions, exponents, digit separators and
 	// other bases, none of which are OFX amounts (and a huge exponent in a few
 	// bytes of input takes an enormous amount of memory to represent)
-	if !ofxAmountRegex.MatchString(value) {
+	if len(value) > maxAmountLength || !ofxAmountRegex.MatchString(value) {
 		return errors.New("Failed to parse OFX amount")
 	}
 	if _, ok := a.SetString(value); !ok {
-- 
2.43.0


From c083da1920b7b4efaf089abf67b8ea319a56c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 30/32] fix: don't mistake currency rates which are multiples
 of 2^64 for zero

---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From 7391d95f5e16f818b5e0df7b3a70e9e54462e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 31/32] fix: skip informational responses in the Discover
 client

A server may send any number of 1xx responses before the final one, and a
client has to be able to read them even if it didn't ask for any. The
Discover client took them for the answer and reported an error.
---
 discovercard_client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index cdd19bb..36ae4c3 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -72,7 +72,13 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
+	reader := bufio.NewReader(conn)
+	response, err := http.ReadResponse(reader, nil)
+	// Any number of informational responses may precede the final one (but
+	// don't wait for it forever)
+	for i := 0; i < 5 && err == nil && response.StatusCode/100 == 1; i++ {
+		response, err = http.ReadResponse(reader, nil)
+	}
 	if err != nil {
 		conn.Close()
 		return nil, err
-- 
2.43.0


From d43136426b69b7ff85e5ca3da75084ea82342250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:22 +0000
Subject: [PATCH 32/32] fix: refuse stray command line arguments instead of
 ignoring the flags after them

---
 cmd/ofx/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/ofx/main.go b/cmd/ofx/main.go
index f7ee8b7..e02932c 100644
--- a/cmd/ofx/main.go
+++ b/cmd/ofx/main.go
@@ -48,6 +48,14 @@ func runCmd(c *command) {
 		os.Exit(1)
 	}
 
+	// Parsing stops at the first argument which isn't a flag: what follows it
+	// (-dryrun, for example) would be ignored
+	if c.Flags.NArg() > 0 {
+		fmt.Printf("Error: Unexpected argument: %s\n\n", c.Flags.Arg(0))
+		c.usage()
+		os.Exit(1)
+	}
+
 	if !c.CheckFlags() {
 		fmt.Println()
 		c.usage()
-- 
2.43.0

