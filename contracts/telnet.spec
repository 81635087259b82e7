package telnet

// ------------------------------------------------------------ spots (C19, C20)

// the md5 hash and its hexadecimal form
fn md5of(s string) [16]byte
fn hexOf(s string) string
fn unhashed(s string) string

extern func crypto/md5.Sum(data) (r)
  ensures r == md5of(str(data))

extern func encoding/hex.EncodeToString(src) (r)
  ensures r == hexOf(str(src))

// the time of a spot, as the layout "1504" shows it
fn clockText(t time.Time, layout string) string

extern func time.Time.Format(layout) (r)
  ensures r == clockText($recv, layout)

// no two different texts have the same hash (assumed of md5)
axiom md5Unique(a string)
  props C19
  requires true
  ensures unhashed(hexOf(str(md5of(a)))) == a
  trigger hexOf(str(md5of(a)))

fn keyText(callsign string, frequency float64) string = callsign + "-" + fmtverb("%.0f", frequency / 1000.0)
fn spotKey(callsign string, frequency float64) string = hexOf(str(md5of(keyText(callsign, frequency))))

// a frequency that is not negative is printed without a dash: equal keys are those of the same callsign and frequency
lemma splitAtDash(a string, b string, p string, q string)
  props C19
  requires a + "-" + p == b + "-" + q && !contains(p, "-") && !contains(q, "-")
  ensures a == b && p == q

lemma sameKeySameText(c1 string, f1 float64, c2 string, f2 float64)
  props C19
  requires spotKey(c1, f1) == spotKey(c2, f2)
  ensures keyText(c1, f1) == keyText(c2, f2)

func (s *Server) formatSpotMessage(callsign, frequency, msg, timestamp) (r)
  props C20, C19
  ensures ["the line of a spot"] r == fmtverb("%-16s", "DX de " + s.mycall + ":") + fmtverb("% 6.1f", frequency / 1000.0) + "  " + fmtverb("%-13s", callsign) + fmtverb("%-31s", msg) + fmtverb("%-4s", clockText(timestamp, "1504")) + "z\n"

pred due(s, k, t) = !member(k, old(dom(s.lastSpots))) || timeSub(t, old(s.lastSpots[k])) > old(s.silencePeriod)

func (s *Server) Spot(callsign, frequency, msg, timestamp)
  props C19, C20
  requires s.lastSpots != nil && s.msg != nil
  modifies s.lastSpots[*], log
  oncall formatSpotMessage: [C19:"the spot as it was given"] $callsign == callsign && $frequency == frequency && $msg == msg && $timestamp == timestamp
  ensures [C19:"announced if the silence is over"] due(s, spotKey(callsign, frequency), timestamp) ==> nsent(s.msg) == old(nsent(s.msg)) + 1 && str(sent(s.msg, old(nsent(s.msg)))) == $result(formatSpotMessage)
  ensures [C19:"suppressed otherwise"] !due(s, spotKey(callsign, frequency), timestamp) ==> nlog == old(nlog) && nsent(s.msg) == old(nsent(s.msg))
  ensures [C19:"the silence begins with the announcement"] due(s, spotKey(callsign, frequency), timestamp) ==> dom(s.lastSpots) == add(old(dom(s.lastSpots)), spotKey(callsign, frequency)) && s.lastSpots[spotKey(callsign, frequency)] == timestamp
  ensures [C19:"a suppressed spot does not extend the silence"] !due(s, spotKey(callsign, frequency), timestamp) ==> dom(s.lastSpots) == old(dom(s.lastSpots)) && s.lastSpots[spotKey(callsign, frequency)] == old(s.lastSpots[spotKey(callsign, frequency)])
  ensures [C19:"other spots are not affected"] forall k string :: k != spotKey(callsign, frequency) ==> member(k, dom(s.lastSpots)) == old(member(k, dom(s.lastSpots))) && s.lastSpots[k] == old(s.lastSpots[k])

func (s *Server) SetSilencePeriod(silencePeriod)
  props C19
  modifies s.silencePeriod
  ensures s.silencePeriod == silencePeriod

// ------------------------------------------------------------ clients (C21)

pred connOK(c) = c.conn != nil && c.msg != nil && c.input != nil && c.close != nil && c.closed != nil && c.msg != c.input && c.close != c.closed
pred serverOK(s) = s.listener != nil && s.msg != nil && s.close != nil && s.closed != nil
pred clientsOK(s) = (forall i int :: 0 <= i && i < len(s.connections) ==> s.connections[i] != nil && connOK(s.connections[i]) && allocated(s.connections[i]) && allocated(s.connections[i].msg) && allocated(s.connections[i].closed)) && (forall i int, j int :: 0 <= i && i < j && j < len(s.connections) ==> s.connections[i] != s.connections[j] && s.connections[i].msg != s.connections[j].msg)

extern func net.TCPListener.AcceptTCP() (c, err)
  ensures err == nil ==> c != nil

extern func net.ListenTCP(network, laddr) (l, err)
  ensures err == nil ==> l != nil

func NewServer(address, mycall, version) (s, err)
  props C19, C20, C21
  modifies log
  ensures err == nil ==> fresh(s) && serverOK(s) && clientsOK(s) && s.lastSpots != nil
  ensures ["the default silence of four minutes"] err == nil ==> s.silencePeriod == 240000000000 && s.mycall == mycall && s.version == version && len(s.connections) == 0
  ensures ["nothing was announced before"] err == nil ==> forall k string :: !member(k, dom(s.lastSpots))

func (c *Connection) Write(bytes) (n, err)
  props C21
  requires connOK(c)
  modifies log
  ensures ["the text is queued for an open connection"] !old(closed(c.closed)) ==> err == nil && n == len(bytes) && nsent(c.msg) == old(nsent(c.msg)) + 1 && sent(c.msg, old(nsent(c.msg))) == bytes
  ensures ["a closed connection is reported"] old(closed(c.closed)) ==> err != nil && nsent(c.msg) == old(nsent(c.msg))
  ensures forall ch int :: ch != ref(c.msg) ==> nsent(ch) == old(nsent(ch))
  ensures forall ch int :: closed(ch) == old(closed(ch))

func (c *Connection) Close()
  props C21
  requires connOK(c)
  modifies log
  ensures ["the connection is closed"] closed(c.closed)
  ensures forall ch int :: old(closed(ch)) ==> closed(ch)

func (c *Connection) writeAll(bytes) (err)
  props C21, C22
  requires c.conn != nil
  modifies log
  ensures forall ch int :: closed(ch) == old(closed(ch)) && nsent(ch) == old(nsent(ch))
  invariant forall ch int :: closed(ch) == old(closed(ch)) && nsent(ch) == old(nsent(ch))
  ensures ["written completely or an error"] err == nil ==> written(c.conn) == old(written(c.conn)) + str(bytes)
  ensures len(bytes) == 0 ==> err == nil
  invariant len(buffer) <= len(bytes)
  invariant written(c.conn) + str(buffer) == old(written(c.conn)) + str(bytes)

func (s *Server) removeConnection(index)
  props C21
  helper
  requires clientsOK(s) && 0 <= index && index < len(s.connections)
  modifies s.connections, s.connections[*]
  ensures len(s.connections) == old(len(s.connections)) - 1
  ensures forall i int :: 0 <= i && i < index ==> s.connections[i] == old(s.connections[i])
  ensures forall i int :: index <= i && i < len(s.connections) ==> s.connections[i] == old(s.connections[i+1])
  ensures forall i int :: index < i && i < old(len(s.connections)) ==> s.connections[i-1] == old(s.connections[i])
  ensures clientsOK(s)

// who got the text of the current iteration
pred delivered(c, bytes) = nsent(c.msg) == before(nsent(c.msg)) + 1 && sent(c.msg, before(nsent(c.msg))) == bytes
pred untouched(c) = nsent(c.msg) == before(nsent(c.msg))
pred announcing(s) = nreceived(s.msg) > before(nreceived(s.msg))
pred isOpen(c) = !before(closed(c.closed))

func (s *Server) run()
  props C21
  requires serverOK(s) && clientsOK(s)
  modifies *
  invariant serverOK(s)
  invariant forall i int :: 0 <= i && i < len(s.connections) ==> s.connections[i] != nil && connOK(s.connections[i]) && allocated(s.connections[i]) && allocated(s.connections[i].msg) && allocated(s.connections[i].closed)
  invariant forall i int, j int :: 0 <= i && i < j && j < len(s.connections) ==> s.connections[i] != s.connections[j] && s.connections[i].msg != s.connections[j].msg
  invariant s.connections == before(s.connections)
  invariant forall k int :: 0 <= k && k < before(len(s.connections)) && s.connections == before(s.connections) ==> s.connections[k] == before(s.connections[k])
  invariant ["delivered so far"] forall k int :: 0 <= k && k < $i ==> (isOpen(before(s.connections[k])) ==> delivered(before(s.connections[k]), bytes))
  invariant ["nothing for closed clients so far"] forall k int :: 0 <= k && k < $i ==> (!isOpen(before(s.connections[k])) ==> untouched(before(s.connections[k])))
  invariant ["delivered"] forall k int :: 0 <= k && k < before(len(s.connections)) ==> (isOpen(before(s.connections[k])) ==> delivered(before(s.connections[k]), bytes))
  invariant ["nothing for closed clients"] forall k int :: 0 <= k && k < before(len(s.connections)) ==> (!isOpen(before(s.connections[k])) ==> untouched(before(s.connections[k])))
  invariant forall k int :: $i <= k && k < before(len(s.connections)) ==> untouched(before(s.connections[k]))
  invariant ["only closed ones are collected so far"] forall k int, m int :: 0 <= k && k < len(removeConnections) && m == removeConnections[k] ==> 0 <= m && m < $i && !isOpen(before(s.connections[m]))
  invariant ["only closed ones are collected"] forall k int, m int :: 0 <= k && k < len(removeConnections) && m == removeConnections[k] ==> 0 <= m && m < before(len(s.connections)) && !isOpen(before(s.connections[m]))
  invariant forall k int, l int :: 0 <= k && k < l && l < len(removeConnections) ==> removeConnections[l] - removeConnections[k] >= l - k
  invariant forall k int :: 0 <= k && k < len(removeConnections) ==> $i - removeConnections[k] >= len(removeConnections) - k
  invariant forall k int :: 0 <= k && k < len(removeConnections) ==> removeConnections[k] >= k
  invariant ["all closed ones are collected so far"] forall m int, k int :: 0 <= m && m <= len(removeConnections) && (m == 0 || k > removeConnections[m-1]) && (m == len(removeConnections) || k < removeConnections[m]) && 0 <= k && k < $i ==> isOpen(before(s.connections[k]))
  invariant ["all closed ones are collected"] forall m int, k int :: 0 <= m && m <= len(removeConnections) && (m == 0 || k > removeConnections[m-1]) && (m == len(removeConnections) || k < removeConnections[m]) && 0 <= k && k < before(len(s.connections)) ==> isOpen(before(s.connections[k]))
  invariant ["the rest is open so far"] forall k int :: 0 <= k && k < $i && (len(removeConnections) == 0 || k > removeConnections[len(removeConnections)-1]) ==> isOpen(before(s.connections[k]))
  invariant ["the rest is open"] forall k int :: 0 <= k && k < before(len(s.connections)) && (len(removeConnections) == 0 || k > removeConnections[len(removeConnections)-1]) ==> isOpen(before(s.connections[k]))
  invariant len(s.connections) == before(len(s.connections)) - $i
  invariant forall p int :: 0 <= p && p < len(s.connections) && ($i == 0 || p > removeConnections[$i-1] - $i) ==> s.connections[p] == before(s.connections[p+$i])
  invariant ["only open ones in front"] forall p int :: 0 <= p && p < len(s.connections) && $i > 0 && p <= removeConnections[$i-1] - $i ==> isOpen(s.connections[p])
  invariant ["open clients stay connected so far"] forall k int :: 0 <= k && k < before(len(s.connections)) && isOpen(before(s.connections[k])) ==> exists p int :: 0 <= p && p < len(s.connections) && s.connections[p] == before(s.connections[k])
  invariant ["no others are added so far"] forall p int, c *Connection :: 0 <= p && p < len(s.connections) && c == s.connections[p] ==> exists k int :: 0 <= k && k < before(len(s.connections)) && c == before(s.connections[k])
  invariant ["in their order so far"] forall p int, q int, k int, l int :: 0 <= p && p < q && q < len(s.connections) && 0 <= k && k < before(len(s.connections)) && 0 <= l && l < before(len(s.connections)) && s.connections[p] == before(s.connections[k]) && s.connections[q] == before(s.connections[l]) ==> k < l
  invariant forall ch int :: before(closed(ch)) == closed(ch)
  invariant forall k int :: 0 <= k && k < $i ==> closed(s.connections[k].closed)
  step ["every open client gets the announcement once"] announcing(s) ==> forall k int :: 0 <= k && k < before(len(s.connections)) && isOpen(before(s.connections[k])) ==> delivered(before(s.connections[k]), received(s.msg, before(nreceived(s.msg))))
  step ["closed clients get nothing"] announcing(s) ==> forall k int :: 0 <= k && k < before(len(s.connections)) && !isOpen(before(s.connections[k])) ==> untouched(before(s.connections[k]))
  step ["open clients stay connected"] announcing(s) ==> forall k int :: 0 <= k && k < before(len(s.connections)) && isOpen(before(s.connections[k])) ==> exists p int :: 0 <= p && p < len(s.connections) && s.connections[p] == before(s.connections[k])
  step ["closed clients are removed"] announcing(s) ==> forall p int :: 0 <= p && p < len(s.connections) ==> isOpen(s.connections[p])
  step ["no others are added"] announcing(s) ==> forall p int, c *Connection :: 0 <= p && p < len(s.connections) && c == s.connections[p] ==> exists k int :: 0 <= k && k < before(len(s.connections)) && c == before(s.connections[k])
  step ["clients stay in their order"] announcing(s) ==> forall p int, q int, k int, l int :: 0 <= p && p < q && q < len(s.connections) && 0 <= k && k < before(len(s.connections)) && 0 <= l && l < before(len(s.connections)) && s.connections[p] == before(s.connections[k]) && s.connections[q] == before(s.connections[l]) ==> k < l
  step ["announcements are passed on one by one"] nreceived(s.msg) == before(nreceived(s.msg)) || nreceived(s.msg) == before(nreceived(s.msg)) + 1
  step ["new clients do not disturb the others"] !announcing(s) ==> len(s.connections) <= before(len(s.connections)) + 1 && len(s.connections) >= before(len(s.connections)) && forall k int :: 0 <= k && k < before(len(s.connections)) ==> s.connections[k] == before(s.connections[k])
  step ["new clients are welcomed"] len(s.connections) > before(len(s.connections)) ==> $calls(NewConnection) == before($calls(NewConnection)) + 1 && s.connections[len(s.connections)-1] == $result(NewConnection)
  oncall NewConnection: $welcome == "SDRainer Version " + s.version + "\n"
  ensures ["all connections are closed at the end"] forall k int :: 0 <= k && k < len(s.connections) ==> closed(s.connections[k].closed)

// ------------------------------------------------------------ the dialog (C22)

func NewConnection(conn, welcome) (c)
  props C22, C21
  requires conn != nil
  modifies log
  oncall writeAll: ["the welcome line comes first"] str($bytes) == welcome && $recv.conn == conn
  ensures ["a new connection"] fresh(c) && connOK(c) && fresh(c.msg) && fresh(c.closed) && fresh(c.close) && c.conn == conn && c.currentAnswer == "" && c.user == "" && c.currentPrompt == nil
  ensures forall ch int :: old(allocated(ch)) ==> closed(ch) == old(closed(ch)) && nsent(ch) == old(nsent(ch))

// the effect of the first i bytes of a packet on the answer that is being entered, and what is written in response
fn lineEnd(s string, i int) bool = s[i] == 10 || s[i] == 13
fn anyEnd(s string, i int) bool = i > 0 && (lineEnd(s, i-1) || anyEnd(s, i-1))
fn pending(a string, s string, i int) string = if i <= 0 then a else (if lineEnd(s, i-1) then "" else pending(a, s, i-1) + char(s[i-1]))
fn firstLine(a string, s string, i int) string = if i <= 0 then "" else (if anyEnd(s, i-1) then firstLine(a, s, i-1) else (if lineEnd(s, i-1) then pending(a, s, i-1) else ""))
fn response(asking bool, a string, s string, i int) string = if i <= 0 then "" else (if lineEnd(s, i-1) then response(asking, a, s, i-1) + (if asking && !anyEnd(s, i-1) then "welcome " + pending(a, s, i-1) + "\n" else "\n") else response(asking, a, s, i-1))

pred gotInput(c) = nreceived(c.input) > before(nreceived(c.input))
pred gotText(c) = nreceived(c.msg) > before(nreceived(c.msg))

// it does not matter in which packets the input arrives: a packet s and then a packet t have the effect of one packet s + t
lemma firstPacket(asking bool, a string, s string, t string, i int)
  props C22
  requires 0 <= i && i <= len(s)
  ensures (pending(a, s + t, i) == pending(a, s, i)) && (anyEnd(s + t, i) == anyEnd(s, i)) && (firstLine(a, s + t, i) == firstLine(a, s, i)) && (response(asking, a, s + t, i) == response(asking, a, s, i))
  induction i

lemma secondPacket(asking bool, a string, u string, n int, t string, i int)
  props C22
  requires 0 <= i && i <= len(t) && 0 <= n && n + len(t) == len(u) && (forall j int :: 0 <= j && j < len(t) ==> u[n+j] == t[j])
  ensures pending(a, u, n + i) == pending(pending(a, u, n), t, i) && anyEnd(u, n + i) == (anyEnd(u, n) || anyEnd(t, i)) && firstLine(a, u, n + i) == (if anyEnd(u, n) then firstLine(a, u, n) else firstLine(pending(a, u, n), t, i)) && response(asking, a, u, n + i) == response(asking, a, u, n) + response(asking && !anyEnd(u, n), pending(a, u, n), t, i)
  induction i

// there are no other prompts than those of the dialog
extern telnet.Prompt.Answer(answer) (response, prompt)
  requires false

func (c *Connection) run()
  props C22, C21
  requires connOK(c)
  requires c.currentPrompt == nil && c.currentAnswer == ""
  modifies *
  invariant connOK(c) && c.conn == old(c.conn) && c.msg == old(c.msg) && c.input == old(c.input) && c.closed == old(c.closed)
  invariant c.currentPrompt == inputCallsignPrompt || c.currentPrompt == ignoreInputPrompt
  invariant ["the answer so far"] c.currentAnswer == pending(before(c.currentAnswer), str(bytes), i)
  invariant ["the name so far"] c.user == (if before(c.currentPrompt) == inputCallsignPrompt && anyEnd(str(bytes), i) then firstLine(before(c.currentAnswer), str(bytes), i) else before(c.user))
  invariant ["asked so far"] (c.currentPrompt == inputCallsignPrompt) == (before(c.currentPrompt) == inputCallsignPrompt && !anyEnd(str(bytes), i))
  invariant ["the responses so far"] written(c.conn) == before(written(c.conn)) + response(before(c.currentPrompt) == inputCallsignPrompt, before(c.currentAnswer), str(bytes), i)
  step [C21:"a text for the client is written"] gotText(c) ==> written(c.conn) == before(written(c.conn)) + str(received(c.msg, before(nreceived(c.msg))))
  step [C21:"texts are written one by one"] nreceived(c.msg) <= before(nreceived(c.msg)) + 1
  step ["a text for the client does not disturb the dialog"] gotText(c) ==> c.currentAnswer == before(c.currentAnswer) && c.user == before(c.user) && c.currentPrompt == before(c.currentPrompt)
  step ["the answer goes on with the next packet"] gotInput(c) ==> c.currentAnswer == pending(before(c.currentAnswer), str(bytes), len(bytes))
  step ["the first line is the name"] gotInput(c) ==> c.user == (if before(c.currentPrompt) == inputCallsignPrompt && anyEnd(str(bytes), len(bytes)) then firstLine(before(c.currentAnswer), str(bytes), len(bytes)) else before(c.user))
  step ["asked only once"] gotInput(c) ==> (c.currentPrompt == inputCallsignPrompt) == (before(c.currentPrompt) == inputCallsignPrompt && !anyEnd(str(bytes), len(bytes)))
  step ["the responses"] gotInput(c) ==> written(c.conn) == before(written(c.conn)) + response(before(c.currentPrompt) == inputCallsignPrompt, before(c.currentAnswer), str(bytes), len(bytes))
  step ["the input is handled one by one"] nreceived(c.input) <= before(nreceived(c.input)) + 1
  ensures ["the connection is closed at the end"] closed(c.closed)

extern io.ReadWriteCloser.Read(b) (n, err)
  modifies b[*]
  ensures 0 <= n && n <= len(b)

func (c *Connection) readLoop()
  props C22
  requires connOK(c)
  modifies log
  invariant len(readBuffer) > 0
  step ["what was read is passed on"] n > 0 ==> nsent(c.input) == before(nsent(c.input)) + 1 && len(sent(c.input, before(nsent(c.input)))) == n && forall i int :: 0 <= i && i < n ==> sent(c.input, before(nsent(c.input)))[i] == readBuffer[i]
  step ["in a packet of its own"] n > 0 ==> forall b []byte :: b == sent(c.input, before(nsent(c.input))) ==> !before(allocated(b))
  step ["nothing else is passed on"] n == 0 ==> nsent(c.input) == before(nsent(c.input))
