package kiwi

// ------------------------------------------------------------ messages (C17)

extern func encoding/binary.bigEndian.Uint16(b) (r)
  requires len(b) >= 2
  ensures r == b[0] * 256 + b[1]

fn tagOf(m []byte) string = str(m[0:3])

func decodeKiwiMessage(bytes) (tag, payload, err)
  props C17
  ensures ["short messages are rejected"] (err == nil) == (len(bytes) >= 3)
  ensures ["tag and payload"] err == nil ==> tag == str(bytes[0:3]) && sameslice(payload, bytes[3:len(bytes)])

// a sample: big endian, signed, scaled
fn sample16(hi int, lo int) float32 = (if hi >= 128 then hi * 256 + lo - 65536 else hi * 256 + lo) / 32767.0

func decodeIQBytes(iqData, iqBytes) (r)
  props C17
  requires iqData == nil
  ensures ["one sample for two bytes"] len(r) == len(iqBytes) / 2
  ensures ["the samples"] forall i int :: 0 <= i && i < len(r) ==> r[i] == sample16(iqBytes[2*i], iqBytes[2*i+1])
  ensures ["its own samples"] len(r) > 0 ==> fresh(r)
  invariant forall k int :: 0 <= k && k < i ==> iqData[k] == sample16(iqBytes[2*k], iqBytes[2*k+1])

func decodeIQMessage(iqData, payload) (r, err)
  props C17
  requires iqData == nil
  ensures ["short messages are rejected"] (err == nil) == (len(payload) >= 17)
  ensures ["one sample for two bytes"] err == nil ==> len(r) == (len(payload) - 17) / 2
  ensures ["the samples"] err == nil ==> forall i int :: 0 <= i && i < len(r) ==> r[i] == sample16(payload[17+2*i], payload[17+2*i+1])
  ensures ["its own samples"] err == nil && len(r) > 0 ==> fresh(r)

// the parts of a configuration message
fn partCount(s string, sep string) int
fn part(s string, sep string, i int) string
fn number(s string) int
fn isNumber(s string) bool
fn unescaped(s string) string
fn escapable(s string) bool

extern func strings.Split(s, sep) (r)
  ensures len(r) == partCount(s, sep) && forall i int :: 0 <= i && i < len(r) ==> r[i] == part(s, sep, i)

extern func strconv.Atoi(s) (n, err)
  ensures n == number(s) && (err == nil) == isNumber(s)
  ensures err == nil || (err != ErrTooBusy && err != ErrBadPassword && err != ErrDown)

extern func net/url.QueryUnescape(s) (r, err)
  ensures (err == nil) == escapable(s) && (err == nil ==> r == unescaped(s))
  ensures err == nil || (err != ErrTooBusy && err != ErrBadPassword && err != ErrDown)

fn pt(s string, i int) string = part(s, " ", i)
fn hasValue(p string) bool = indexof(p, "=") != -1
fn confKey(p string) string = if hasValue(p) then trimmed(p[0:indexof(p, "=")]) else p
fn rawValue(p string) string = if hasValue(p) then trimmed(p[indexof(p, "=")+1:len(p)]) else ""
fn loaded(p string) bool = hasValue(p) && hasprefix(confKey(p), "load_")
fn confValue(p string) string = if loaded(p) then unescaped(rawValue(p)) else rawValue(p)
fn isRate(p string) bool = hasValue(p) && confKey(p) == "audio_rate"
fn busy(p string) bool = hasValue(p) && confKey(p) == "too_busy" && rawValue(p) == "1"
fn refused(p string) bool = hasValue(p) && confKey(p) == "badp" && rawValue(p) == "1"
fn down(p string) bool = hasValue(p) && confKey(p) == "down" && rawValue(p) == "1"
fn invalid(p string) bool = (isRate(p) && !isNumber(rawValue(p))) || (loaded(p) && !escapable(rawValue(p)))
fn good(p string) bool = !busy(p) && !refused(p) && !down(p) && !invalid(p)
fn stored(s string, k string, n int) bool = n > 0 && (confKey(pt(s, n-1)) == k || stored(s, k, n-1))
fn value(v string, s string, k string, n int) string = if n <= 0 then v else (if confKey(pt(s, n-1)) == k then confValue(pt(s, n-1)) else value(v, s, k, n-1))
fn rate(v int, s string, n int) int = if n <= 0 then v else (if isRate(pt(s, n-1)) then number(rawValue(pt(s, n-1))) else rate(v, s, n-1))

lemma storedNone(s string, k string)
  props C17
  ensures !stored(s, k, 0)
  trigger stored(s, k, 0)

lemma storedStep(s string, k string, n int, m int)
  props C17
  requires n >= 0 && m == n + 1
  ensures stored(s, k, m) == (confKey(pt(s, n)) == k || stored(s, k, n))
  trigger stored(s, k, n), stored(s, k, m)

lemma valueNone(v string, s string, k string)
  props C17
  ensures value(v, s, k, 0) == v
  trigger value(v, s, k, 0)

lemma valueStep(v string, s string, k string, n int, m int)
  props C17
  requires n >= 0 && m == n + 1
  ensures value(v, s, k, m) == (if confKey(pt(s, n)) == k then confValue(pt(s, n)) else value(v, s, k, n))
  trigger value(v, s, k, n), value(v, s, k, m)

lemma noReason(p string)
  props C17
  requires invalid(p)
  ensures !busy(p) && !refused(p) && !down(p)

func (c *Client) decodeConfigurationMessage(payload) (err)
  props C17
  requires c.configuration != nil
  modifies c.configuration[*], c.audioRate, c.compression
  invariant ["the parts so far"] forall j int :: 0 <= j && j < $i ==> good(pt(str(payload), j))
  invariant ["stored so far"] forall k string :: member(k, dom(c.configuration)) == (old(member(k, dom(c.configuration))) || stored(str(payload), k, $i))
  invariant ["values so far"] forall k string :: member(k, dom(c.configuration)) ==> c.configuration[k] == value(old(c.configuration[k]), str(payload), k, $i)
  invariant ["audio rate so far"] c.audioRate == rate(old(c.audioRate), str(payload), $i)
  ensures ["accepted if every part is good"] err == nil ==> forall j int :: 0 <= j && j < partCount(str(payload), " ") ==> good(pt(str(payload), j))
  ensures ["rejected with a reason"] err != nil ==> exists j int :: 0 <= j && j < partCount(str(payload), " ") && !good(pt(str(payload), j)) && (forall l int :: 0 <= l && l < j ==> good(pt(str(payload), l))) && c.audioRate == rate(old(c.audioRate), str(payload), j) && (busy(pt(str(payload), j)) ==> err == ErrTooBusy) && (refused(pt(str(payload), j)) ==> err == ErrBadPassword) && (down(pt(str(payload), j)) ==> err == ErrDown) && (invalid(pt(str(payload), j)) ==> err != ErrTooBusy && err != ErrBadPassword && err != ErrDown)
  ensures ["stored by key"] err == nil ==> forall k string :: member(k, dom(c.configuration)) == (old(member(k, dom(c.configuration))) || stored(str(payload), k, partCount(str(payload), " ")))
  ensures ["the values"] err == nil ==> forall k string :: member(k, dom(c.configuration)) ==> c.configuration[k] == value(old(c.configuration[k]), str(payload), k, partCount(str(payload), " "))
  ensures ["the audio rate"] err == nil ==> c.audioRate == rate(old(c.audioRate), str(payload), partCount(str(payload), " "))

extern kiwi.clientConn.ReadMessage() (t, p, err)
  modifies log
extern kiwi.clientConn.Close() (err)
  modifies log
// the handler does not change the client
extern kiwi.KiwiHandler.Connected(sampleRate)
  modifies log
extern kiwi.KiwiHandler.IQData(sampleRate, data)
  modifies log


func (c *Client) readLoop(conn)
  props C17
  requires c.configuration != nil && conn != nil && c.closed != nil && c.close != nil
  modifies *
  invariant c.configuration == old(c.configuration) && c.kiwiHandler == old(c.kiwiHandler) && c.closed == old(c.closed) && c.close == old(c.close)
  oncall KiwiHandler.Connected: ["connected once the audio rate is known"] $sampleRate == c.audioRate && c.audioRate != 0 && !before(c.connected)
  oncall KiwiHandler.IQData: ["the decoded samples"] $sampleRate == c.audioRate && $sampleRate != 0 && $data == $result(decodeIQMessage, 0) && $result(decodeIQMessage, 1) == nil
  oncall decodeKiwiMessage: ["each message as it was received"] $bytes == $result(ReadMessage, 1) && $result(ReadMessage, 0) == 2 && $result(ReadMessage, 2) == nil
  oncall decodeIQMessage: ["the payload of IQ messages"] $result(decodeKiwiMessage, 0) == "SND" && $payload == $result(decodeKiwiMessage, 1)
  oncall decodeConfigurationMessage: ["the payload of configuration messages"] $result(decodeKiwiMessage, 0) == "MSG" && $payload == $result(decodeKiwiMessage, 1) && $recv == c
  step ["messages are decoded one by one"] $calls(ReadMessage) <= before($calls(ReadMessage)) + 1 && $calls(decodeKiwiMessage) <= before($calls(decodeKiwiMessage)) + 1
  step ["every message is decoded"] $calls(ReadMessage) > before($calls(ReadMessage)) ==> $result(ReadMessage, 2) == nil && ($result(ReadMessage, 0) == 2) == ($calls(decodeKiwiMessage) > before($calls(decodeKiwiMessage)))
  step ["every IQ message is passed on"] $calls(KiwiHandler.IQData) - before($calls(KiwiHandler.IQData)) == (if $calls(decodeKiwiMessage) > before($calls(decodeKiwiMessage)) && $result(decodeKiwiMessage, 2) == nil && $result(decodeKiwiMessage, 0) == "SND" && c.kiwiHandler != nil && c.audioRate != 0 && len($result(decodeKiwiMessage, 1)) >= 17 then 1 else 0)
  step ["every configuration message is decoded"] $calls(decodeConfigurationMessage) - before($calls(decodeConfigurationMessage)) == (if $calls(decodeKiwiMessage) > before($calls(decodeKiwiMessage)) && $result(decodeKiwiMessage, 2) == nil && $result(decodeKiwiMessage, 0) == "MSG" then 1 else 0)
  step ["connected only once"] $calls(KiwiHandler.Connected) - before($calls(KiwiHandler.Connected)) == (if c.connected && !before(c.connected) then 1 else 0)
  step ["connected as soon as the audio rate is known"] before(c.connected) ==> c.connected
  step ["connected with the configuration"] $calls(decodeConfigurationMessage) > before($calls(decodeConfigurationMessage)) && c.audioRate != 0 && c.kiwiHandler != nil ==> c.connected
  step ["the end is not ignored"] $calls(decodeConfigurationMessage) > before($calls(decodeConfigurationMessage)) ==> $result(decodeConfigurationMessage) != ErrTooBusy && $result(decodeConfigurationMessage) != ErrBadPassword && $result(decodeConfigurationMessage) != ErrDown

// ------------------------------------------------------------ blocks of IQ data (C18)

pred clientOK(c) = c.configuration != nil && c.out != nil && c.close != nil && c.closed != nil && c.close != c.closed
pred kiwiProcessOK(p) = p.receiver != nil && receiverOK(p.receiver) && p.receiver.out.out != nil && p.scope != nil && p.close != nil

extern func github.com/gorilla/websocket.Dialer.Dial(url, header) (conn, response, err)
  modifies log
  ensures err == nil ==> conn != nil
extern func net/url.Parse(s) (u, err)
  ensures err == nil ==> u != nil
extern func net/url.URL.String() (r)
extern func net/url.QueryEscape(s) (r)

func newClient(host, keepalive, kiwiHandler) (c, err)
  props C18, C25
  ensures err == nil ==> fresh(c) && clientOK(c) && fresh(c.out) && fresh(c.close) && fresh(c.closed) && c.host != nil && c.kiwiHandler == kiwiHandler && c.audioRate == 0 && !c.connected
  ensures [C25:"the default port of a KiwiSDR"] err == nil ==> c.host == $result(ParseTCPAddrArg, 0) && c.host.Port == (if resolvedPort(c.host) == 0 then 8073 else resolvedPort(c.host))
  oncall ParseTCPAddrArg: [C25:"the defaults of a KiwiSDR"] $arg == host && $defaultHost == "localhost" && $defaultPort == 8073

// the integer part of x, where the arithmetic may be single precision
pred edgeOK(e, x) = if x >= 0 then e <= x + 0.001 && e >= x - 1.001 else e >= x - 0.001 && e <= x + 1.001

func New(host, username, password, centerFrequency, bandwidth, spotter) (p, err)
  props C18
  requires websocket.DefaultDialer != nil && -1000000 <= bandwidth && bandwidth <= 1000000
  modifies *
  oncall Receiver.SetEdgeWidth: ["the band that is not observed"] edgeOK($edgeWidth, ((12000 - bandwidth) / 2) * (512.0 / 12000.0))
  ensures err == nil ==> p != nil && p.centerFrequency == centerFrequency && p.rxFrequency == centerFrequency
  ensures err == nil ==> edgeOK(p.receiver.edgeWidth, ((12000 - bandwidth) / 2) * (512.0 / 12000.0))

func (p *Process) Connected(sampleRate)
  props C18
  requires kiwiProcessOK(p) && sampleRate > 0
  modifies *
  oncall Receiver.Start: ["started with the sample rate of the KiwiSDR"] $sampleRate == sampleRate && $blockSize == 512 && $recv == p.receiver

func (p *Process) IQData(sampleRate, data)
  props C18
  requires p.receiver != nil
  modifies log
  oncall Receiver.IQData: ["the blocks in their order"] $sampleRate == sampleRate && $recv == p.receiver && len($data) == 1024 && ref($data) == ref(data) && off($data) == off(data) + 1024 * ($calls(Receiver.IQData) - old($calls(Receiver.IQData)))
  ensures ["all blocks or none"] $calls(Receiver.IQData) - old($calls(Receiver.IQData)) == (if len(data) % 1024 == 0 then len(data) / 1024 else 0)
  invariant $calls(Receiver.IQData) == old($calls(Receiver.IQData)) + i && i <= count
