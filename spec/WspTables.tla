----------------------------- MODULE WspTables -----------------------------
(* Assigned numbers of WAP-230-WSP, appendix A (tables 38, 39, 40 and 42), *)
(* and of WAP-209-MMSEncapsulation 1.0, section 7.                         *)
EXTENDS Text

(* Table 40: the n-th entry has the number n - 1 *)
MediaTypes == AllCodes(<<
  "*/*", "text/*", "text/html", "text/plain", "text/x-hdml", "text/x-ttml",
  "text/x-vCalendar", "text/x-vCard", "text/vnd.wap.wml", "text/vnd.wap.wmlscript",
  "text/vnd.wap.wta-event", "multipart/*", "multipart/mixed", "multipart/form-data",
  "multipart/byterantes", "multipart/alternative",
  \* 0x10
  "application/*", "application/java-vm", "application/x-www-form-urlencoded",
  "application/x-hdmlc", "application/vnd.wap.wmlc", "application/vnd.wap.wmlscriptc",
  "application/vnd.wap.wta-eventc", "application/vnd.wap.uaprof",
  "application/vnd.wap.wtls-ca-certificate", "application/vnd.wap.wtls-user-certificate",
  "application/x-x509-ca-cert", "application/x-x509-user-cert",
  "image/*", "image/gif", "image/jpeg", "image/tiff",
  \* 0x20
  "image/png", "image/vnd.wap.wbmp", "application/vnd.wap.multipart.*",
  "application/vnd.wap.multipart.mixed", "application/vnd.wap.multipart.form-data",
  "application/vnd.wap.multipart.byteranges", "application/vnd.wap.multipart.alternative",
  "application/xml", "text/xml", "application/vnd.wap.wbxml",
  "application/x-x968-cross-cert", "application/x-x968-ca-cert",
  "application/x-x968-user-cert", "text/vnd.wap.si", "application/vnd.wap.sic",
  "text/vnd.wap.sl",
  \* 0x30
  "application/vnd.wap.slc", "text/vnd.wap.co", "application/vnd.wap.coc",
  "application/vnd.wap.multipart.related", "application/vnd.wap.sia",
  "text/vnd.wap.connectivity-xml", "application/vnd.wap.connectivity-wbxml",
  "application/pkcs7-mime", "application/vnd.wap.hashed-certificate",
  "application/vnd.wap.signed-certificate", "application/vnd.wap.cert-response",
  "application/xhtml+xml", "application/wml+xml", "text/css",
  "application/vnd.wap.mms-message", "application/vnd.wap.rollover-certificate",
  \* 0x40
  "application/vnd.wap.locc+wbxml", "application/vnd.wap.loc+xml",
  "application/vnd.syncml.dm+wbxml", "application/vnd.syncml.dm+xml",
  "application/vnd.syncml.notification", "application/vnd.wap.xhtml+xml",
  "application/vnd.wv.csp.cir", "application/vnd.oma.dd+xml",
  "application/vnd.oma.drm.message", "application/vnd.oma.drm.content",
  "application/vnd.oma.drm.rights+xml", "application/vnd.oma.drm.rights+wbxml" >>)
MediaNumber(c) == IndexOf(MediaTypes, c) - 1     \* -1: none

(* Table 38: number, name, kind of value, encoding version 1.x from which it is *)
AllParams == <<
  <<0,  Codes("Q"), "q", 1>>, <<1, Codes("Charset"), "charset", 1>>, <<2, Codes("Level"), "version", 1>>,
  <<3,  Codes("Type"), "integer", 1>>, <<5, Codes("Name"), "text", 1>>, <<6, Codes("Filename"), "text", 1>>,
  <<7,  Codes("Differences"), "field", 1>>, <<8, Codes("Padding"), "short", 1>>,
  <<9,  Codes("Type"), "constrained", 2>>, <<10, Codes("Start"), "text", 2>>,
  <<11, Codes("Start-info"), "text", 2>>,
  <<12, Codes("Comment"), "text", 3>>, <<13, Codes("Domain"), "text", 3>>,
  <<14, Codes("Max-Age"), "delta", 3>>, <<15, Codes("Path"), "text", 3>>, <<16, Codes("Secure"), "none", 3>>,
  <<17, Codes("SEC"), "short", 4>>, <<18, Codes("MAC"), "textvalue", 4>>,
  <<19, Codes("Creation-date"), "date", 4>>, <<20, Codes("Modification-date"), "date", 4>>,
  <<21, Codes("Read-date"), "date", 4>>, <<22, Codes("Size"), "integer", 4>>,
  <<23, Codes("Name"), "textvalue", 4>>, <<24, Codes("Filename"), "textvalue", 4>>,
  <<25, Codes("Start"), "textvalue", 4>>, <<26, Codes("Start-info"), "textvalue", 4>>,
  <<27, Codes("Comment"), "textvalue", 4>>, <<28, Codes("Domain"), "textvalue", 4>>,
  <<29, Codes("Path"), "textvalue", 4>> >>
ParamsIn(ver) == SelectSeq(AllParams, LAMBDA r : r[4] <= ver)
ParamTable == ParamsIn(2)        \* what content types are made of
ParamRows(n) == {i \in 1..Len(ParamTable) : ParamTable[i][1] = n}
ParamNames == {ParamTable[i][2] : i \in 1..Len(ParamTable)}

(* Table 39 *)
AllFields == AllCodes(<<
  "Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Accept-Ranges", "Age",
  "Allow", "Authorization", "Cache-Control", "Connection", "Content-Base",
  "Content-Encoding", "Content-Language", "Content-Length", "Content-Location",
  "Content-MD5",
  \* 0x10
  "Content-Range", "Content-Type", "Date", "Etag", "Expires", "From", "Host",
  "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since",
  "Location", "Last-Modified", "Max-Forwards", "Pragma",
  \* 0x20
  "Proxy-Authenticate", "Proxy-Authorization", "Public", "Range", "Referer", "Retry-After",
  "Server", "Transfer-Encoding", "Upgrade", "User-Agent", "Vary", "Via", "Warning",
  "WWW-Authenticate", "Content-Disposition", "X-Wap-Application-Id",
  \* 0x30
  "X-Wap-Content-URI", "X-Wap-Initiator-URI", "Accept-Application", "Bearer-Indication",
  "Push-Flag", "Profile", "Profile-Diff", "Profile-Warning",
  \* 0x38: encoding version 1.3
  "Expect", "TE", "Trailer", "Accept-Charset", "Accept-Encoding", "Cache-Control",
  "Content-Range", "X-Wap-Tod", "Content-ID", "Set-Cookie", "Cookie", "Encoding-Version",
  \* 0x44: encoding version 1.4
  "Profile-Warning", "Content-Disposition", "X-WAP-Security", "Cache-Control" >>)
FieldsIn(ver) == [j \in 1..(CASE ver = 1 -> 47 [] ver = 2 -> 56 [] ver = 3 -> 68 [] ver = 4 -> 72) |-> AllFields[j]]
FieldNames == FieldsIn(2)        \* what messages are made of
FieldNumber(c) == IndexOf(FieldNames, c) - 1

(* Table 42 *)
Charsets == <<
  << <<7, 234>>, Codes("big5") >>, << <<3, 232>>, Codes("iso-10646-ucs-2") >>,
  << <<4>>, Codes("iso-8859-1") >>, << <<5>>, Codes("iso-8859-2") >>,
  << <<6>>, Codes("iso-8859-3") >>, << <<7>>, Codes("iso-8859-4") >>,
  << <<8>>, Codes("iso-8859-5") >>, << <<9>>, Codes("iso-8859-6") >>,
  << <<10>>, Codes("iso-8859-7") >>, << <<11>>, Codes("iso-8859-8") >>,
  << <<12>>, Codes("iso-8859-9") >>, << <<17>>, Codes("shift_JIS") >>,
  << <<3>>, Codes("us-ascii") >>, << <<106>>, Codes("utf-8") >> >>

(* WAP-209, table 8: number, name, kind of value *)
MmsTable == <<
  <<Codes("Bcc"), "estring">>, <<Codes("Cc"), "estring">>, <<Codes("Content-Location"), "text">>,
  <<Codes("Content-Type"), "ctype">>, <<Codes("Date"), "date">>,
  <<Codes("Delivery-Report"), "boolean">>, <<Codes("Delivery-Time"), "dtime">>,
  <<Codes("Expiry"), "expiry">>, <<Codes("From"), "from">>, <<Codes("Message-Class"), "mclass">>,
  <<Codes("Message-ID"), "text">>, <<Codes("Message-Type"), "mtype">>,
  <<Codes("MMS-Version"), "version">>, <<Codes("Message-Size"), "long">>,
  <<Codes("Priority"), "priority">>, <<Codes("Read-Reply"), "boolean">>,
  <<Codes("Report-Allowed"), "boolean">>, <<Codes("Response-Status"), "response">>,
  <<Codes("Response-Text"), "estring">>, <<Codes("Sender-Visibility"), "visibility">>,
  <<Codes("Status"), "status">>, <<Codes("Subject"), "estring">>, <<Codes("To"), "estring">>,
  <<Codes("Transaction-Id"), "text">> >>
MmsNames == [i \in 1..Len(MmsTable) |-> MmsTable[i][1]]
MmsNumber(c) == IndexOf(MmsNames, c)      \* 0: none

(* tokens from octet 128 on *)
Tokens == [
  mclass     |-> AllCodes(<<"Personal", "Advertisement", "Informational", "Auto">>),
  mtype      |-> AllCodes(<<"m-send-req", "m-send-conf", "m-notification-ind",
                    "m-notifyresp-ind", "m-retrieve-conf", "m-acknowledge-ind",
                    "m-delivery-ind">>),
  priority   |-> AllCodes(<<"Low", "Normal", "High">>),
  response   |-> AllCodes(<<"Ok", "Error-unspecified", "Error-service-denied",
                    "Error-message-format-corrupt", "Error-sending-address-unresolved",
                    "Error-message-not-found", "Error-network-problem",
                    "Error-content-not-accepted", "Error-unsupported-message">>),
  visibility |-> AllCodes(<<"Hide", "Show">>),
  status     |-> AllCodes(<<"Expired", "Retrieved", "Rejected", "Deferred", "Unrecognised">>) ]
Fallback == [
  mtype    |-> Codes("<unknown>"),
  response |-> Codes("Error-unspecified"),
  status   |-> Codes("Unrecognised") ]
NotInserted == Codes("<not inserted>")
=============================================================================
