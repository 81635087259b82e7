package rx

instantiate PeaksTable[float32,int] ForcePut Put put clear Get Cleanup Reset Activate getInternal Deactivate FindNext
instantiate NewPeaksTable[float32,int]

// ------------------------------------------------------------ time

// the nanoseconds from u to t
fn timeSub(t time.Time, u time.Time) int

extern func time.Time.Sub(u) (r)
  ensures r == timeSub($recv, u)

extern func rx.Clock.Now() (r)

// ------------------------------------------------------------ peaks table (C07, C08)

pred inPeak(p, i) = p.From <= i && i <= p.To
// every peak occupies the bins of its range and no others
pred peaksOK(t) = t.clock != nil && (forall i int :: 0 <= i && i < len(t.bins) && t.bins[i] != nil ==> t.bins[i].Peak != nil && t.bins[i].From <= i && i <= t.bins[i].To) && (forall i int, j int :: 0 <= i && i < len(t.bins) && t.bins[i] != nil && 0 <= j && j < len(t.bins) && t.bins[i].From <= j && j <= t.bins[i].To ==> t.bins[j] == t.bins[i])
pred overlaps(q, p, n) = max(0, q.From) <= min(p.To, n - 1) && max(0, p.From) <= min(q.To, n - 1)
pred listened(q) = q.state == rx.peakActive || q.state == rx.peakInactive
pred isNew(q, p) = q != nil && q.Peak == p && q.state == rx.peakNew && q.since == $result(Clock.Now)
pred replaced(t, p) = (forall i int :: 0 <= i && i < len(t.bins) && inPeak(p, i) ==> isNew(t.bins[i], p)) && (forall i int :: 0 <= i && i < len(t.bins) && !inPeak(p, i) ==> t.bins[i] == (if old(t.bins[i]) != nil && overlaps(old(t.bins[i]), p, len(t.bins)) then nil else old(t.bins[i])))
pred sameTable(t) = forall i int :: 0 <= i && i < len(t.bins) ==> t.bins[i] == old(t.bins[i])
// what is known about the peaks found in the bins a <= k < i
pred scanned(t, a, i, cf, ct) = (cf == -1 ==> ct == -1) && (cf != -1 ==> a < i && 0 <= cf && cf < i && t.bins[cf] != nil && cf == max(0, t.bins[cf].From) && t.bins[cf].To >= a && ct >= a && t.bins[min(ct, len(t.bins) - 1)] != nil && t.bins[min(ct, len(t.bins) - 1)].To == ct && t.bins[min(ct, len(t.bins) - 1)].From < i) && forall k int :: 0 <= k && k < len(t.bins) && t.bins[k] != nil && max(a, t.bins[k].From) < i && t.bins[k].To >= a ==> cf != -1 && max(0, t.bins[k].From) >= cf && t.bins[k].To <= ct

func NewPeaksTable(size, clock) (t)
  props C07, C08
  requires size >= 0 && clock != nil
  ensures fresh(t) && peaksOK(t) && len(t.bins) == size && t.clock == clock
  ensures forall i int :: 0 <= i && i < size ==> t.bins[i] == nil
  ensures ["peaks are kept for two minutes"] t.peakTimeout == 120000000000

func (t *PeaksTable) put(p)
  props C07
  helper
  requires p != nil && p.Peak != nil
  modifies t.bins[*]
  ensures forall i int :: 0 <= i && i < len(t.bins) ==> t.bins[i] == (if inPeak(p, i) then p else old(t.bins[i]))
  invariant i >= max(0, p.From) && forall k int :: 0 <= k && k < len(t.bins) ==> t.bins[k] == (if inPeak(p, k) && k < i then p else old(t.bins[k]))

func (t *PeaksTable) clear(from, to)
  props C07
  helper
  modifies t.bins[*]
  ensures forall i int :: 0 <= i && i < len(t.bins) ==> t.bins[i] == (if from <= i && i <= to then nil else old(t.bins[i]))
  invariant i >= max(0, from) && forall k int :: 0 <= k && k < len(t.bins) ==> t.bins[k] == (if from <= k && k <= to && k < i then nil else old(t.bins[k]))

func (t *PeaksTable) ForcePut(p)
  props C07, C08
  requires peaksOK(t) && p != nil && p.From <= p.To
  modifies t.bins[*]
  ensures [C07:"a peak occupies exactly the bins of its range"] peaksOK(t)
  ensures [C07:"a forced peak replaces all peaks it overlaps"] replaced(t, p)
  invariant i >= max(0, p.From) && i <= max(max(0, p.From), min(p.To, len(t.bins) - 1) + 1) && scanned(t, max(0, p.From), i, clearFrom, clearTo)

func (t *PeaksTable) Put(p)
  props C07, C08
  requires peaksOK(t) && p != nil && p.From <= p.To
  modifies t.bins[*]
  ensures [C07:"a peak occupies exactly the bins of its range"] peaksOK(t)
  ensures [C07:"a peak that is or was listened to is not replaced"] (exists i int :: 0 <= i && i < len(t.bins) && inPeak(p, i) && old(t.bins[i]) != nil && old(listened(t.bins[i]))) ==> sameTable(t)
  ensures [C07:"a new peak replaces all peaks it overlaps"] (forall i int :: 0 <= i && i < len(t.bins) && inPeak(p, i) && old(t.bins[i]) != nil ==> !old(listened(t.bins[i]))) ==> replaced(t, p)
  invariant i >= max(0, p.From) && i <= max(max(0, p.From), min(p.To, len(t.bins) - 1) + 1) && scanned(t, max(0, p.From), i, clearFrom, clearTo)
  invariant forall k int :: max(0, p.From) <= k && k < i && t.bins[k] != nil ==> !listened(t.bins[k])

func (t *PeaksTable) Get(binIndex) (r)
  props C07
  ensures (binIndex < 0 || binIndex >= len(t.bins)) ==> r == nil
  ensures 0 <= binIndex && binIndex < len(t.bins) ==> r == (if t.bins[binIndex] == nil then nil else t.bins[binIndex].Peak)

func (t *PeaksTable) Reset()
  props C07
  requires t.clock != nil
  modifies t.bins[*]
  ensures forall i int :: 0 <= i && i < len(t.bins) ==> t.bins[i] == nil
  ensures peaksOK(t)

pred expired(t, q) = q.state != rx.peakActive && timeSub($result(Clock.Now), q.since) >= t.peakTimeout

func (t *PeaksTable) Cleanup()
  props C08, C07
  requires peaksOK(t)
  modifies t.bins[*]
  ensures [C08:"exactly the idle peaks that are too old are removed"] forall i int :: 0 <= i && i < len(t.bins) ==> t.bins[i] == (if old(t.bins[i]) != nil && expired(t, old(t.bins[i])) then nil else old(t.bins[i]))
  ensures peaksOK(t)
  invariant i >= 0
  invariant forall k int :: 0 <= k && k < len(t.bins) && k < i ==> t.bins[k] == (if old(t.bins[k]) != nil && expired(t, old(t.bins[k])) then nil else old(t.bins[k]))
  invariant forall k int :: i <= k && k < len(t.bins) ==> t.bins[k] == old(t.bins[k]) || (t.bins[k] == nil && old(t.bins[k]) != nil && expired(t, old(t.bins[k])))
  invariant peaksOK(t)

// the peak in the table that has the range of p
pred known(t, p) = max(0, p.From) < len(t.bins) && t.bins[max(0, p.From)] != nil && t.bins[max(0, p.From)].From == p.From && t.bins[max(0, p.From)].To == p.To

func (t *PeaksTable) getInternal(p) (r)
  props C08
  helper
  requires peaksOK(t) && p != nil
  ensures r == (if known(t, p) then t.bins[max(0, p.From)] else nil)

func (t *PeaksTable) Activate(p)
  props C08
  requires peaksOK(t) && p != nil
  modifies any(peak.state)
  ensures ["only the peak with this range is activated"] forall i int :: 0 <= i && i < len(t.bins) && t.bins[i] != nil ==> t.bins[i].state == (if known(t, p) && t.bins[i] == t.bins[max(0, p.From)] && (old(t.bins[i].state) == rx.peakNew || old(t.bins[i].state) == rx.peakInactive) then rx.peakActive else old(t.bins[i].state))

func (t *PeaksTable) Deactivate(p)
  props C08
  requires peaksOK(t) && p != nil
  modifies any(peak.state)
  ensures ["only the peak with this range is deactivated"] forall i int :: 0 <= i && i < len(t.bins) && t.bins[i] != nil ==> t.bins[i].state == (if known(t, p) && t.bins[i] == t.bins[max(0, p.From)] && old(t.bins[i].state) == rx.peakActive then rx.peakInactive else old(t.bins[i].state))

extern func math/rand.Intn(n) (r)
  requires n > 0
  ensures 0 <= r && r < n

func (t *PeaksTable) FindNext() (r)
  props C08
  requires peaksOK(t)
  ensures ["the next peak is a new one"] r != nil ==> exists i int :: 0 <= i && i < len(t.bins) && t.bins[i] != nil && t.bins[i].Peak == r && t.bins[i].state == rx.peakNew
  ensures ["a new peak is always found"] r == nil ==> forall i int :: 0 <= i && i < len(t.bins) && t.bins[i] != nil ==> t.bins[i].state != rx.peakNew
  invariant forall k int :: 0 <= k && k < $i && t.bins[k] != nil ==> t.bins[k].state != rx.peakNew

// ------------------------------------------------------------ text window (C14)

pred windowOK(w) = allocated(w.window[0]) && allocated(w.window[1]) && w.windowSize >= 2 && 0 <= w.currentWindow && w.currentWindow < 2 && len(w.window[w.currentWindow]) <= w.windowSize && 0 <= w.searchPoint && w.searchPoint <= len(w.window[w.currentWindow]) && ref(w.window[0]) != ref(w.window[1])
pred text(w) = w.window[w.currentWindow]
pred sameText(w) = w.currentWindow == old(w.currentWindow) && len(text(w)) == old(len(text(w))) && forall i int :: 0 <= i && i < len(text(w)) ==> text(w)[i] == old(text(w)[i])

pred sameBuffer(w, i, j) = ref(w.window[i]) == old(ref(w.window[j])) && off(w.window[i]) == old(off(w.window[j])) && cap(w.window[i]) == old(cap(w.window[j]))
pred ownBuffers(w) = (sameBuffer(w, 0, 0) || sameBuffer(w, 0, 1) || fresh(w.window[0])) && (sameBuffer(w, 1, 0) || sameBuffer(w, 1, 1) || fresh(w.window[1]))

func newTextWindow(windowSize) (w)
  props C14
  requires windowSize >= 2
  ensures fresh(w) && windowOK(w) && w.windowSize == windowSize && len(text(w)) == 0 && w.searchPoint == 0
  invariant forall k int :: 0 <= k && k < $i ==> len(result.window[k]) == 0 && fresh(result.window[k])
  invariant $i == 2 ==> ref(result.window[0]) != ref(result.window[1])

func (w *textWindow) String() (r)
  props C14
  requires windowOK(w)
  ensures r == str(text(w))

func (w *textWindow) Reset()
  props C14
  requires windowOK(w)
  modifies w.window, w.currentWindow, w.searchPoint
  ensures ["the initial state"] windowOK(w) && len(w.window[0]) == 0 && len(w.window[1]) == 0 && w.currentWindow == 0 && w.searchPoint == 0
  invariant forall k int :: 0 <= k && k < $i ==> len(w.window[k]) == 0
  invariant allocated(w.window[0]) && allocated(w.window[1]) && ref(w.window[0]) != ref(w.window[1])
  invariant $i > 0 ==> w.currentWindow == 0

func (w *textWindow) Write(bytes) (n, err)
  props C14
  requires windowOK(w) && ref(bytes) != ref(w.window[0]) && ref(bytes) != ref(w.window[1])
  modifies w.window, w.window[w.currentWindow][*]
  ensures windowOK(w) && ownBuffers(w)
  ensures ["as much as fits"] n == min(len(bytes), w.windowSize - old(len(text(w))))
  ensures ["fails if the window is full"] (err != nil) == (len(bytes) > 0 && old(len(text(w))) == w.windowSize)
  ensures ["the text stays in its order"] len(text(w)) == old(len(text(w))) + n && (forall i int :: 0 <= i && i < old(len(text(w))) ==> text(w)[i] == old(text(w)[i])) && forall i int :: 0 <= i && i < n ==> text(w)[old(len(text(w)))+i] == bytes[i]

func (w *textWindow) Shift()
  props C14
  requires windowOK(w)
  modifies w.window, w.currentWindow, w.searchPoint, w.window[0][*], w.window[1][*]
  ensures windowOK(w) && ownBuffers(w)
  ensures ["the last half is kept"] len(text(w)) == min(w.windowSize / 2, old(len(text(w)))) && forall i int :: 0 <= i && i < len(text(w)) ==> text(w)[i] == old(text(w)[len(text(w)) - min(w.windowSize / 2, len(text(w))) + i])
  ensures ["the search goes on at the same text"] w.searchPoint == max(0, old(w.searchPoint) - (old(len(text(w))) - len(text(w))))

func (w *textWindow) IsFull() (r)
  props C14
  requires windowOK(w)
  ensures r == (len(text(w)) == w.windowSize)

// the first match of the expression in the text: -1 if there is none
fn matchFrom(e *regexp.Regexp, s string) int
fn matchTo(e *regexp.Regexp, s string) int

extern func regexp.Regexp.FindIndex(b) (loc)
  ensures (loc == nil) == (matchFrom($recv, str(b)) < 0)
  ensures loc != nil ==> len(loc) == 2 && loc[0] == matchFrom($recv, str(b)) && loc[1] == matchTo($recv, str(b)) && 0 <= loc[0] && loc[0] <= loc[1] && loc[1] <= len(b)

pred hit(w, e, tail) = w.searchPoint < len(text(w)) && matchFrom(e, str(text(w)[w.searchPoint:])) >= 0 && (tail || matchTo(e, str(text(w)[w.searchPoint:])) < len(text(w)) - w.searchPoint)

func (w *textWindow) FindNext(exp, includeTail) (r, found)
  props C14
  requires windowOK(w) && exp != nil
  modifies w.searchPoint
  ensures windowOK(w)
  ensures ["finds the next match"] found == old(hit(w, exp, includeTail))
  ensures ["returns the text of the match"] r == (if found then old(str(text(w)[w.searchPoint+matchFrom(exp, str(text(w)[w.searchPoint:])):w.searchPoint+matchTo(exp, str(text(w)[w.searchPoint:]))])) else "")
  ensures ["goes on behind the match"] w.searchPoint == (if found then old(w.searchPoint + matchTo(exp, str(text(w)[w.searchPoint:]))) else old(w.searchPoint))

// ------------------------------------------------------------ text processor (C15, C16)

// callsigns: what the library recognises
fn isCallsign(s string) bool
fn parsed(s string) callsign.Callsign
fn callStr(c callsign.Callsign) string
fn lower(s string) string
fn upper(s string) string
fn trimmed(s string) string

extern func strings.ToLower(s) (r)
  ensures r == lower(s)
extern func strings.ToUpper(s) (r)
  ensures r == upper(s)
extern func strings.TrimSpace(s) (r)
  ensures r == trimmed(s)
extern func github.com/ftl/hamradio/callsign.Parse(s) (call, err)
  ensures (err == nil) == isCallsign(s)
  ensures err == nil ==> call == parsed(s) && call != callsign.NoCallsign
extern func github.com/ftl/hamradio/callsign.Callsign.String() (r)
  ensures r == callStr($recv)

// the databases
fn knowsLiterally(f rx.scpFinder, s string) bool
fn knownPrefix(f rx.dxccFinder, s string) bool

extern func rx.dxccFinder.Find(s) (prefixes, ok)
  ensures ok == knownPrefix($recv, s)
extern func rx.scpFinder.FindStrings(s) (matches, err)
  ensures (err == nil && len(matches) > 0 && matches[0] == s) == knowsLiterally($recv, s)

extern func github.com/ftl/hamradio/dxcc.LocalFilename() (r, err)
extern func github.com/ftl/hamradio/dxcc.Update(url, name) (updated, err)
extern func github.com/ftl/hamradio/dxcc.LoadLocal(name) (r, err)
  ensures err == nil ==> r != nil
extern func github.com/ftl/hamradio/scp.LocalFilename() (r, err)
extern func github.com/ftl/hamradio/scp.Update(url, name) (updated, err)
extern func github.com/ftl/hamradio/scp.LoadLocal(name) (r, err)
  ensures err == nil ==> r != nil

func setupDXCCFinder() (r)
  props C16
  ensures ["the prefix database is used if and only if it can be loaded"] (r != nil) == ($called(dxcc.LoadLocal) && $result(dxcc.LoadLocal, 1) == nil)
  ensures ["a missing file name is tolerated"] $result(dxcc.LocalFilename, 1) == nil ==> $called(dxcc.LoadLocal)

func setupSCPFinder() (r)
  props C16
  ensures ["the callsign database is used if and only if it can be loaded"] (r != nil) == ($called(scp.LoadLocal) && $result(scp.LoadLocal, 1) == nil)
  ensures ["a missing file name is tolerated"] $result(scp.LocalFilename, 1) == nil ==> $called(scp.LoadLocal)

fn opaque validPrefix(f rx.dxccFinder, s string) bool = f == nil || knownPrefix(f, s)

func (p *TextProcessor) isValidDXCC(call) (r)
  props C16, C15
  ensures r == validPrefix(p.dxccFinder, callStr(call))

fn opaque weightOf(f rx.scpFinder, s string) int = if f != nil && knowsLiterally(f, s) then 1 else 0

func (p *TextProcessor) isSCPCallsign(call) (r)
  props C16
  ensures ["the database knows the callsign literally"] r == (weightOf(p.scpFinder, callStr(call)) == 1)

func (p *TextProcessor) callsignWeight(call) (r)
  props C15, C16
  ensures ["one more for a known callsign"] r == weightOf(p.scpFinder, callStr(call))

func isFalsePositive(candidate) (r)
  props C15
  helper
  ensures r == hasprefix(candidate, "tu5nn")
  invariant forall k int :: 0 <= k && k < $i ==> !hasprefix(candidate, falsePositives[k])

pred wc(c) = c.count + c.weight
pred countsOK(p) = p.collectedCallsigns != nil && forall k string :: k in p.collectedCallsigns ==> callStr(p.collectedCallsigns[k].call) == k && p.collectedCallsigns[k].call != callsign.NoCallsign && p.collectedCallsigns[k].count >= 1 && p.collectedCallsigns[k].weight >= 0

func (p *TextProcessor) bestMatch() (r)
  props C15
  requires countsOK(p)
  ensures ["none without three counts"] r == callsign.NoCallsign ==> forall k string :: k in p.collectedCallsigns ==> wc(p.collectedCallsigns[k]) < 3
  ensures ["the best of all"] r != callsign.NoCallsign ==> callStr(r) in p.collectedCallsigns && p.collectedCallsigns[callStr(r)].call == r && wc(p.collectedCallsigns[callStr(r)]) >= 3 && forall k string :: k in p.collectedCallsigns ==> wc(p.collectedCallsigns[k]) <= wc(p.collectedCallsigns[callStr(r)])
  invariant bestMatch == callsign.NoCallsign ==> maxCount == 2 && forall k string :: $visited(k) ==> wc(p.collectedCallsigns[k]) < 3
  invariant bestMatch != callsign.NoCallsign ==> callStr(bestMatch) in p.collectedCallsigns && p.collectedCallsigns[callStr(bestMatch)].call == bestMatch && wc(p.collectedCallsigns[callStr(bestMatch)]) == maxCount && maxCount >= 3 && forall k string :: $visited(k) ==> wc(p.collectedCallsigns[k]) <= maxCount

pred candidateOf(s) = lower(trimmed(s))
pred counts(p, s) = !hasprefix(candidateOf(s), "tu5nn") && isCallsign(candidateOf(s)) && validPrefix(p.dxccFinder, callStr(parsed(candidateOf(s))))
pred keyOf(s) = callStr(parsed(candidateOf(s)))
pred newCount(p, s) = (if old(keyOf(s) in p.collectedCallsigns) then old(p.collectedCallsigns[keyOf(s)].count) else 0) + 1
pred newWeight(p, s) = if old(keyOf(s) in p.collectedCallsigns) then old(p.collectedCallsigns[keyOf(s)].weight) else weightOf(p.scpFinder, keyOf(s))

extern func rx.CallsignReporter.CallsignDecoded(callsign, count, weight)
  event CallsignDecoded($recv, callsign, count, weight)
extern func rx.CallsignReporter.CallsignSpotted(callsign)
  event CallsignSpotted($recv, callsign)
extern func rx.CallsignReporter.SpotTimeout(callsign)
  event SpotTimeout($recv, callsign)

func (p *TextProcessor) collectCallsign(candidate)
  props C15
  requires countsOK(p) && p.reporter != nil
  modifies p.lastBestMatch, p.collectedCallsigns[*], log
  ensures countsOK(p)
  ensures ["false positives and invalid callsigns are ignored"] !counts(p, candidate) ==> nlog == old(nlog) && p.lastBestMatch == old(p.lastBestMatch) && forall k string :: (k in p.collectedCallsigns) == old(k in p.collectedCallsigns) && p.collectedCallsigns[k] == old(p.collectedCallsigns[k])
  ensures ["valid callsigns are counted"] counts(p, candidate) ==> keyOf(candidate) in p.collectedCallsigns && p.collectedCallsigns[keyOf(candidate)].count == newCount(p, candidate) && p.collectedCallsigns[keyOf(candidate)].weight == newWeight(p, candidate)
  ensures ["the other counts stay"] counts(p, candidate) ==> forall k string :: k != keyOf(candidate) ==> (k in p.collectedCallsigns) == old(k in p.collectedCallsigns) && p.collectedCallsigns[k] == old(p.collectedCallsigns[k])
  ensures ["the count is reported"] counts(p, candidate) ==> nlog > old(nlog) && log[old(nlog)] == @CallsignDecoded(p.reporter, keyOf(candidate), newCount(p, candidate), newWeight(p, candidate))
  ensures ["nothing is spotted below the threshold"] counts(p, candidate) && (forall k string :: k in p.collectedCallsigns ==> wc(p.collectedCallsigns[k]) < 3) ==> nlog == old(nlog) + 1 && p.lastBestMatch == old(p.lastBestMatch)
  ensures ["the best callsign is spotted"] counts(p, candidate) && wc(p.collectedCallsigns[keyOf(candidate)]) >= 3 ==> nlog >= old(nlog) + 2
  ensures ["the best callsign is spotted"] counts(p, candidate) && nlog > old(nlog) + 1 ==> callStr(p.lastBestMatch) in p.collectedCallsigns && p.collectedCallsigns[callStr(p.lastBestMatch)].call == p.lastBestMatch && wc(p.collectedCallsigns[callStr(p.lastBestMatch)]) >= 3 && (forall k string :: k in p.collectedCallsigns ==> wc(p.collectedCallsigns[k]) <= wc(p.collectedCallsigns[callStr(p.lastBestMatch)])) && log[nlog-1] == @CallsignSpotted(p.reporter, callStr(p.lastBestMatch))
  ensures ["the timeout of the one before"] counts(p, candidate) && nlog > old(nlog) + 1 ==> (if old(p.lastBestMatch) != callsign.NoCallsign && old(p.lastBestMatch) != p.lastBestMatch then nlog == old(nlog) + 3 && log[old(nlog)+1] == @SpotTimeout(p.reporter, callStr(old(p.lastBestMatch))) else nlog == old(nlog) + 2)

pred textOK(p) = p.clock != nil && p.reporter != nil && p.window != nil && windowOK(p.window) && countsOK(p) && (p.stop != nil ==> p.stopped != nil)
// nothing was read yet
pred textFresh(p) = len(text(p.window)) == 0 && p.window.searchPoint == 0 && p.lastBestMatch == callsign.NoCallsign && forall k string :: !(k in p.collectedCallsigns)

func NewTextProcessor(out, clock, reporter) (p)
  props C10, C15, C16
  requires clock != nil && reporter != nil
  ensures fresh(p) && fresh(p.window) && textOK(p) && textFresh(p) && !windowFull(p) && p.stop == nil
  ensures p.out == out && p.clock == clock && p.reporter == reporter && p.lastWrite == $result(Clock.Now) && p.window.windowSize == 20

pred windowFull(p) = len(text(p.window)) == p.window.windowSize

func (p *TextProcessor) writeTimeout()
  props C15
  requires textOK(p)
  modifies p.window.searchPoint, p.lastBestMatch, p.collectedCallsigns[*], log
  oncall textWindow.FindNext: $recv == p.window && $exp == rx.callsignExp && $includeTail
  oncall collectCallsign: $candidate == $result(textWindow.FindNext)
  ensures textOK(p) && (old(!windowFull(p)) ==> !windowFull(p))
  ensures ["a callsign at the end of the text is collected"] $called(TextProcessor.collectCallsign) == old(hit(p.window, rx.callsignExp, true))

func (p *TextProcessor) findNextCallsign(bytes)
  props C15
  requires textOK(p) && !windowFull(p) && ref(bytes) != ref(p.window.window[0]) && ref(bytes) != ref(p.window.window[1])
  modifies p.window.window, p.window.currentWindow, p.window.window[0][*], p.window.window[1][*], p.window.searchPoint, p.lastBestMatch, p.collectedCallsigns[*], log
  oncall textWindow.Write: ["all the text, in its order"] ref($bytes) == ref(bytes) && off($bytes) + len($bytes) == off(bytes) + len(bytes)
  oncall textWindow.FindNext: $recv == p.window && $exp == rx.callsignExp && !$includeTail
  oncall collectCallsign: $candidate == $result(textWindow.FindNext)
  ensures textOK(p) && !windowFull(p)
  invariant textOK(p) && !windowFull(p) && ownBuffers(p.window)
  invariant ref(bytesForWindow) == ref(bytes) && off(bytesForWindow) + len(bytesForWindow) == off(bytes) + len(bytes)
  invariant ref(bytes) != ref(p.window.window[0]) && ref(bytes) != ref(p.window.window[1])

func (p *TextProcessor) Write(bytes) (n, err)
  props C15
  requires textOK(p) && !windowFull(p)
  modifies p.lastWrite, p.window.window, p.window.currentWindow, p.window.window[0][*], p.window.window[1][*], p.window.searchPoint, p.lastBestMatch, p.collectedCallsigns[*], log
  oncall findNextCallsign: ["all the text is searched"] $recv == p && len($bytes) == len(bytes) && forall i int :: 0 <= i && i < len(bytes) ==> $bytes[i] == bytes[i]
  ensures $called(TextProcessor.findNextCallsign)
  ensures textOK(p) && !windowFull(p) && p.lastWrite == $result(Clock.Now)
  ensures ["the text is passed on unchanged"] p.out != nil ==> log[nlog-1] == @Write(p.out, str(bytes))
  ensures p.out == nil ==> n == len(bytes) && err == nil

func (p *TextProcessor) LastWrite() (r)
  props C10
  ensures r == p.lastWrite

func (p *TextProcessor) CheckWriteTimeout()
  props C15
  requires textOK(p)
  modifies p.window.searchPoint, p.lastBestMatch, p.collectedCallsigns[*], log
  ensures textOK(p) && (old(!windowFull(p)) ==> !windowFull(p))
  ensures ["the rest of the text is searched after five seconds"] $called(TextProcessor.writeTimeout) == (timeSub($result(Clock.Now), p.lastWrite) > 5000000000)

func (p *TextProcessor) Start()
  props C10
  requires textOK(p)
  modifies p.stop, p.stopped
  ensures p.stop != nil && p.stopped != nil

func (p *TextProcessor) Stop()
  props C10
  requires textOK(p)
  modifies p.stop, p.stopped, log
  ensures textOK(p)
  ensures nlog == old(nlog) || (nlog == old(nlog) + 1 && log[old(nlog)] == @Close(old(p.stop)))
  ensures old(p.stop) != nil && !old(closed(p.stop)) ==> p.stop == nil && p.stopped == nil

func (p *TextProcessor) Restart()
  props C10
  requires textOK(p)
  modifies p.stop, p.stopped, p.lastWrite, p.lastBestMatch, p.window.window, p.window.currentWindow, p.window.searchPoint, p.collectedCallsigns[*], log
  ensures nlog == old(nlog) || (nlog == old(nlog) + 1 && log[old(nlog)] == @Close(old(p.stop)))
  ensures ["a fresh start"] textOK(p) && textFresh(p) && p.lastWrite == $result(Clock.Now) && p.stop != nil && !windowFull(p)

// ------------------------------------------------------------ listener (C10)

instantiate Listener[float32,int] ID SetScope SetSilenceTimeout SetAttachmentTimeout SetSignalDebounce CallsignDecoded CallsignSpotted SpotTimeout Attach Attached Detach Peak PeakRange SignalBin TimeoutExceeded CheckWriteTimeout Listen
instantiate NewListener[float32,int]

extern func rx.Reporter.ListenerActivated(listener, frequency)
  event ListenerActivated($recv, listener, frequency)
extern func rx.Reporter.ListenerDeactivated(listener, frequency)
  event ListenerDeactivated($recv, listener, frequency)
extern func rx.Reporter.CallsignDecoded(listener, callsign, frequency, count, weight)
  event RCallsignDecoded($recv, listener, callsign, frequency, count, weight)
extern func rx.Reporter.CallsignSpotted(listener, callsign, frequency)
  event RCallsignSpotted($recv, listener, callsign, frequency)
extern func rx.Reporter.SpotTimeout(listener, callsign, frequency)
  event RSpotTimeout($recv, listener, callsign, frequency)

pred processorOK(p) = textOK(p) && !windowFull(p)
pred opaque listenerOK(l) = l.clock != nil && l.reporter != nil && l.demodulator != nil && specOK(l.demodulator) && l.textProcessor != nil && processorOK(l.textProcessor)

func NewListener(id, out, clock, reporter, sampleRate, blockSize) (l)
  reveal listenerOK
  props C10, C09, C28
  requires clock != nil && reporter != nil && sampleRate > 0 && blockSize > 0
  ensures fresh(l) && listenerOK(l) && l.id == id && l.reporter == reporter && l.clock == clock && l.peak == nil
  ensures fresh(l.demodulator) && fresh(l.demodulator.signalDebouncer) && fresh(l.demodulator.decoder) && fresh(l.textProcessor)
  ensures ["the text of the decoder goes to the text processor"] is(l.demodulator.decoder.out, *TextProcessor) && l.textProcessor.out == out && dyn(l.demodulator.decoder.out, *TextProcessor) == l.textProcessor
  ensures ["the text processor reports to the listener"] l.textProcessor.reporter == iface(l)

func (l *Listener) ID() (r)
  reveal listenerOK
  props C10
  ensures r == l.id

func (l *Listener) SetScope(scope)
  reveal listenerOK
  props C28
  requires listenerOK(l) && scope != nil
  modifies l.demodulator.scope, l.demodulator.decoder.scope
  ensures l.demodulator.scope == scope && l.demodulator.decoder.scope == scope

func (l *Listener) SetSilenceTimeout(timeout)
  reveal listenerOK
  props C28, C10
  modifies l.silenceTimeout
  ensures l.silenceTimeout == timeout

func (l *Listener) SetAttachmentTimeout(timeout)
  reveal listenerOK
  props C28, C10
  modifies l.attachmentTimeout
  ensures l.attachmentTimeout == timeout

func (l *Listener) SetSignalDebounce(debounce)
  reveal listenerOK
  props C28
  requires listenerOK(l)
  modifies l.demodulator.signalDebouncer.threshold
  ensures l.demodulator.signalDebouncer.threshold == debounce

func (l *Listener) CallsignDecoded(callsign, count, weight)
  reveal listenerOK
  props C10
  requires l.reporter != nil && l.peak != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @RCallsignDecoded(l.reporter, l.id, callsign, l.peak.SignalFrequency, count, weight)

func (l *Listener) CallsignSpotted(callsign)
  reveal listenerOK
  props C10
  requires l.reporter != nil && l.peak != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @RCallsignSpotted(l.reporter, l.id, upper(callsign), l.peak.SignalFrequency)

func (l *Listener) SpotTimeout(callsign)
  reveal listenerOK
  props C10
  requires l.reporter != nil && l.peak != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @RSpotTimeout(l.reporter, l.id, upper(callsign), l.peak.SignalFrequency)

func (l *Listener) Attach(peak)
  reveal listenerOK
  props C10
  requires listenerOK(l) && peak != nil
  modifies l.peak, l.lastAttach, l.demodulator.decoder.ticks, l.demodulator.decoder.lastState, l.demodulator.decoder.onStart, l.demodulator.decoder.offStart, l.demodulator.decoder.wpm, l.demodulator.decoder.decoding, l.demodulator.decoder.currentChar, l.demodulator.decoder.currentCharInvalid, l.demodulator.decoder.onThreshold.low, l.demodulator.decoder.onThreshold.high, l.demodulator.decoder.onThreshold.last, l.demodulator.decoder.onThreshold.threshold, l.demodulator.decoder.onThreshold.preset, l.demodulator.decoder.offThreshold.low, l.demodulator.decoder.offThreshold.high, l.demodulator.decoder.offThreshold.last, l.demodulator.decoder.offThreshold.threshold, l.demodulator.decoder.offThreshold.preset
  modifies l.textProcessor.stop, l.textProcessor.stopped, l.textProcessor.lastWrite, l.textProcessor.lastBestMatch, l.textProcessor.window.window, l.textProcessor.window.currentWindow, l.textProcessor.window.searchPoint, l.textProcessor.collectedCallsigns[*], log
  ensures listenerOK(l) && l.peak == peak
  ensures ["a fresh decoder"] initial(l.demodulator.decoder)
  ensures ["an empty text and no callsigns"] textFresh(l.textProcessor)
  ensures ["the timeouts start again"] l.lastAttach == $result(Clock.Now) && $called(TextProcessor.Restart)
  ensures ["the activation is reported"] log[nlog-1] == @ListenerActivated(l.reporter, l.id, peak.SignalFrequency)
  ensures nlog == old(nlog) + 1 || (nlog == old(nlog) + 2 && log[old(nlog)] == @Close(old(l.textProcessor.stop)))
  ensures ["the other listeners are not disturbed"] forall x *Listener :: old(listenerOK(x)) ==> listenerOK(x)

func (l *Listener) Attached() (r)
  reveal listenerOK
  props C10
  ensures r == (l.peak != nil)

func (l *Listener) Detach()
  reveal listenerOK
  props C10
  requires listenerOK(l) && l.peak != nil
  modifies l.peak, l.textProcessor.stop, l.textProcessor.stopped, log
  oncall TextProcessor.Stop: ["the peak is kept until the text processor is stopped"] l.peak == old(l.peak) && $recv == l.textProcessor
  ensures listenerOK(l) && l.peak == nil
  ensures $called(TextProcessor.Stop)
  ensures ["the deactivation is reported"] log[nlog-1] == @ListenerDeactivated(l.reporter, l.id, old(l.peak.SignalFrequency))
  ensures nlog == old(nlog) + 1 || (nlog == old(nlog) + 2 && log[old(nlog)] == @Close(old(l.textProcessor.stop)))
  ensures ["the other listeners are not disturbed"] forall x *Listener :: old(listenerOK(x)) ==> listenerOK(x)

func (l *Listener) Peak() (r)
  reveal listenerOK
  props C10
  ensures r == l.peak

func (l *Listener) PeakRange() (from, to)
  reveal listenerOK
  props C10
  ensures from == (if l.peak == nil then 0 else l.peak.From) && to == (if l.peak == nil then 0 else l.peak.To)

func (l *Listener) SignalBin() (r)
  reveal listenerOK
  props C10, C29
  ensures r == (if l.peak == nil then 0 else l.peak.SignalBin)

func (l *Listener) TimeoutExceeded() (r)
  reveal listenerOK
  props C10
  requires listenerOK(l)
  ensures ["one of the timeouts is exceeded"] r == (timeSub($result(Clock.Now), l.lastAttach) > l.attachmentTimeout || timeSub($result(Clock.Now), l.textProcessor.lastWrite) > l.silenceTimeout)

func (l *Listener) CheckWriteTimeout()
  reveal listenerOK
  props C10, C15
  requires listenerOK(l)
  modifies l.textProcessor.window.searchPoint, l.textProcessor.lastBestMatch, l.textProcessor.collectedCallsigns[*], log
  ensures listenerOK(l) && $called(TextProcessor.CheckWriteTimeout)
  ensures ["the other listeners are not disturbed"] forall x *Listener :: old(listenerOK(x)) ==> listenerOK(x)

func (l *Listener) Listen(value, noiseFloor)
  reveal listenerOK
  props C10, C29
  requires listenerOK(l)
  modifies l.demodulator.signalDebouncer.effectiveState, l.demodulator.signalDebouncer.lastRawState, l.demodulator.signalDebouncer.stateCount, l.demodulator.decoder.ticks, l.demodulator.decoder.lastState, l.demodulator.decoder.onStart, l.demodulator.decoder.offStart, l.demodulator.decoder.wpm, l.demodulator.decoder.decoding, l.demodulator.decoder.currentChar, l.demodulator.decoder.currentCharInvalid, l.demodulator.decoder.onThreshold.low, l.demodulator.decoder.onThreshold.high, l.demodulator.decoder.onThreshold.last, l.demodulator.decoder.onThreshold.threshold, l.demodulator.decoder.offThreshold.low, l.demodulator.decoder.offThreshold.high, l.demodulator.decoder.offThreshold.last, l.demodulator.decoder.offThreshold.threshold, log
  oncall SpectralDemodulator.Tick: ["the signal is compared with the noise"] $recv == l.demodulator && $value == value && $threshold == noiseFloor
  ensures ["every value ticks the decoder of an attached listener"] $called(SpectralDemodulator.Tick) == (l.peak != nil)
  ensures listenerOK(l)
  ensures ["the other listeners are not disturbed"] forall x *Listener :: old(listenerOK(x)) ==> listenerOK(x)

// ------------------------------------------------------------ listener pool (C09)

instantiate ListenerPool[float32,int] Size Available Reset BindNext Release release indexOf ForEach First
instantiate NewListenerPool[float32,int]

// the ids that belong to a pool: an arbitrary set of them
fn poolID(p *ListenerPool, s string) bool

pred distinctIDs(p) = (forall i int, j int :: 0 <= i && i < j && j < len(p.listeners) ==> p.listeners[i].id != p.listeners[j].id) && (forall i int, j int :: 0 <= i && i < j && j < len(p.ids) ==> p.ids[i] != p.ids[j]) && (forall i int, j int :: 0 <= i && i < len(p.listeners) && 0 <= j && j < len(p.ids) ==> p.listeners[i].id != p.ids[j])
pred onlyPoolIDs(p) = (forall i int :: 0 <= i && i < len(p.listeners) ==> poolID(p, p.listeners[i].id)) && (forall i int :: 0 <= i && i < len(p.ids) ==> poolID(p, p.ids[i]))
pred poolOK(p) = p.size >= 0 && p.factory != nil && len(p.listeners) + len(p.ids) == p.size && (forall i int :: 0 <= i && i < len(p.listeners) ==> p.listeners[i] != nil) && distinctIDs(p)
pred sameListenerBuffer(p) = ref(p.listeners) == old(ref(p.listeners)) && off(p.listeners) == old(off(p.listeners)) && cap(p.listeners) == old(cap(p.listeners))
pred ownIDs(p) = fresh(p.ids) || (ref(p.ids) == old(ref(p.ids)) && off(p.ids) == old(off(p.ids)) && cap(p.ids) == old(cap(p.ids)))
pred isBoundID(p, s) = exists i int :: 0 <= i && i < len(p.listeners) && p.listeners[i].id == s

func NewIDPool(size, prefix) (r)
  props C09
  requires size >= 0
  ensures fresh(r) && len(r) == size
  ensures forall i int :: 0 <= i && i < size ==> r[i] == prefix + itoa(size - i)
  invariant forall k int :: 0 <= k && k < $i ==> result[k] == prefix + itoa(size - k)

func NewListenerPool(size, idPrefix, factory) (p)
  props C09
  requires size >= 0 && factory != nil
  ensures fresh(p) && poolOK(p) && p.size == size && p.factory == factory && len(p.listeners) == 0
  ensures ["the ids are numbered from one"] forall i int :: 0 <= i && i < size ==> p.ids[i] == idPrefix + itoa(size - i)

extern rx.ListenerPool.factory(id) (l)
  ensures fresh(l) && l.id == id && l.peak == nil && listenerOK(l)

func (p *ListenerPool) Size() (r)
  props C09
  ensures r == p.size

func (p *ListenerPool) Available() (r)
  props C09
  requires poolOK(p)
  ensures r == (len(p.listeners) < p.size)

func (p *ListenerPool) First() (l, ok)
  props C09
  ensures ok == (len(p.listeners) > 0) && (ok ==> l == p.listeners[0]) && (!ok ==> l == nil)

func (p *ListenerPool) ForEach(f)
  inline

func (p *ListenerPool) BindNext() (l, ok)
  props C09
  requires poolOK(p)
  modifies p.listeners, p.listeners[*], p.ids
  ensures ["every id once"] poolOK(p)
  ensures ["only the ids of the pool"] old(onlyPoolIDs(p)) ==> onlyPoolIDs(p)
  ensures ["a listener can be bound if and only if there is a free one"] ok == (old(len(p.listeners)) < p.size)
  ensures ["the others stay bound"] forall i int :: 0 <= i && i < old(len(p.listeners)) ==> p.listeners[i] == old(p.listeners[i])
  ensures !ok ==> l == nil && len(p.listeners) == old(len(p.listeners))
  ensures sameListenerBuffer(p) || fresh(p.listeners)
  ensures ["a new listener"] ok ==> fresh(l) && len(p.listeners) == old(len(p.listeners)) + 1 && p.listeners[len(p.listeners)-1] == l && l.peak == nil && listenerOK(l)
  ensures ["the others stay intact"] forall i int :: 0 <= i && i < old(len(p.listeners)) && old(listenerOK(p.listeners[i])) ==> listenerOK(p.listeners[i])
  ensures forall i int :: 0 <= i && i < old(len(p.listeners)) && old(p.listeners[i].peak) != nil ==> p.listeners[i].peak != nil

func (p *ListenerPool) indexOf(listener) (r)
  props C09
  helper
  requires poolOK(p) && listener != nil
  ensures r == -1 ==> forall i int :: 0 <= i && i < len(p.listeners) ==> p.listeners[i].id != listener.id
  ensures r != -1 ==> 0 <= r && r < len(p.listeners) && p.listeners[r].id == listener.id
  invariant forall k int :: 0 <= k && k < $i ==> p.listeners[k].id != listener.id

func (p *ListenerPool) release(listener)
  props C09
  helper
  requires poolOK(p) && listener != nil
  modifies p.listeners, p.listeners[*], p.ids, p.ids[*]
  ensures ["every id once"] poolOK(p)
  ensures ["only the ids of the pool"] old(onlyPoolIDs(p)) ==> onlyPoolIDs(p)
  ensures ["an unknown listener has no effect"] !old(isBoundID(p, listener.id)) ==> len(p.listeners) == old(len(p.listeners)) && forall i int :: 0 <= i && i < len(p.listeners) ==> p.listeners[i] == old(p.listeners[i])
  ensures ["the listener is released"] !isBoundID(p, listener.id) && (old(isBoundID(p, listener.id)) ==> len(p.listeners) == old(len(p.listeners)) - 1)
  ensures ["the others stay bound"] forall i int :: 0 <= i && i < old(len(p.listeners)) && old(p.listeners[i].id) != listener.id ==> exists j int :: 0 <= j && j < len(p.listeners) && p.listeners[j] == old(p.listeners[i])
  ensures ["no others become bound"] forall j int :: 0 <= j && j < len(p.listeners) ==> exists i int :: 0 <= i && i < old(len(p.listeners)) && p.listeners[j] == old(p.listeners[i])
  ensures sameListenerBuffer(p) && ownIDs(p)

func (p *ListenerPool) Release(listeners)
  props C09
  requires poolOK(p) && ref(listeners) != ref(p.listeners) && forall i int :: 0 <= i && i < len(listeners) ==> listeners[i] != nil
  modifies p.listeners, p.listeners[*], p.ids, p.ids[*]
  ensures ["every id once"] poolOK(p)
  ensures ["only the ids of the pool"] old(onlyPoolIDs(p)) ==> onlyPoolIDs(p)
  ensures ["the listeners are released"] forall i int :: 0 <= i && i < len(listeners) ==> !isBoundID(p, listeners[i].id)
  ensures sameListenerBuffer(p)
  ensures ["the others stay bound"] forall i int :: 0 <= i && i < old(len(p.listeners)) && (forall k int :: 0 <= k && k < len(listeners) ==> listeners[k].id != old(p.listeners[i].id)) ==> exists j int :: 0 <= j && j < len(p.listeners) && p.listeners[j] == old(p.listeners[i])
  ensures ["no others become bound"] forall j int :: 0 <= j && j < len(p.listeners) ==> exists i int :: 0 <= i && i < old(len(p.listeners)) && p.listeners[j] == old(p.listeners[i])
  invariant poolOK(p) && sameListenerBuffer(p) && ownIDs(p) && (old(onlyPoolIDs(p)) ==> onlyPoolIDs(p))
  invariant forall i int :: 0 <= i && i < $i ==> !isBoundID(p, listeners[i].id)
  invariant forall i int :: 0 <= i && i < old(len(p.listeners)) && (forall k int :: 0 <= k && k < $i ==> listeners[k].id != old(p.listeners[i].id)) ==> exists j int :: 0 <= j && j < len(p.listeners) && p.listeners[j] == old(p.listeners[i])
  invariant forall j int :: 0 <= j && j < len(p.listeners) ==> exists i int :: 0 <= i && i < old(len(p.listeners)) && p.listeners[j] == old(p.listeners[i])

func (p *ListenerPool) Reset()
  props C09
  requires poolOK(p) && forall i int :: 0 <= i && i < len(p.listeners) ==> listenerOK(p.listeners[i]) && p.listeners[i].peak != nil
  modifies p.listeners, p.ids, p.ids[*], any(Listener.peak), any(TextProcessor.stop), any(TextProcessor.stopped), log
  ensures ["every id once"] poolOK(p)
  ensures ["only the ids of the pool"] old(onlyPoolIDs(p)) ==> onlyPoolIDs(p)
  ensures ["all listeners are released"] len(p.listeners) == 0
  ensures fresh(p.listeners) || cap(p.listeners) == 0 || sameListenerBuffer(p)
  ensures ["all listeners are detached"] forall i int :: 0 <= i && i < old(len(p.listeners)) ==> old(p.listeners[i]).peak == nil && listenerOK(old(p.listeners[i]))
  ensures nlog >= old(nlog) + old(len(p.listeners))
  invariant len(p.ids) == old(len(p.ids)) + $i && ownIDs(p)
  invariant forall k int :: 0 <= k && k < old(len(p.ids)) ==> p.ids[k] == old(p.ids[k])
  invariant forall k int :: old(len(p.ids)) <= k && k < old(len(p.ids)) + $i ==> p.ids[k] == old(p.listeners[k - len(p.ids)].id)
  invariant forall k int :: 0 <= k && k < len(p.listeners) ==> listenerOK(p.listeners[k])
  invariant forall k int :: 0 <= k && k < $i ==> p.listeners[k].peak == nil
  invariant forall k int :: $i <= k && k < len(p.listeners) ==> p.listeners[k].peak != nil
  invariant nlog >= old(nlog) + $i

// ------------------------------------------------------------ receiver (C18, C28, C29, C30)

instantiate Receiver[float32,int] newListener Start Stop do AddReporter ListenerActivated ListenerDeactivated CallsignDecoded CallsignSpotted SpotTimeout SetScope SetPeakThreshold SetEdgeWidth SetSilenceTimeout SetAttachmentTimeout SetSignalDebounce SetCenterFrequency CenterFrequency SetVFOOffset IQData run newPeakCenteredOnSignal newPeakCenteredOnFrequency newPeakCenteredOnBin
instantiate NewReceiver[float32,int]
instantiate scaledValuesForScope[float32]

// the receiver that owns a pool of listeners
fn receiverOf(p *ListenerPool) *Receiver

pred boundOK(p) = forall i int :: 0 <= i && i < len(p.listeners) ==> listenerOK(p.listeners[i]) && p.listeners[i].peak != nil
pred runParts(r) = r.sampleRate > 0 && r.blockSize > 0 && r.frequencyMapping != nil && mappingOK(r.frequencyMapping) && r.frequencyMapping.centerFrequency == r.centerFrequency && r.frequencyMapping.sampleRate == r.sampleRate && r.frequencyMapping.blockSize == r.blockSize && r.peaks != nil && peaksOK(r.peaks) && len(r.peaks.bins) == r.blockSize && r.stop != nil && r.stopped != nil
pred receiverOK(r) = r.clock != nil && r.out != nil && r.scope != nil && r.fft != nil && r.listeners != nil && poolOK(r.listeners) && boundOK(r.listeners) && (r.in == nil ==> len(r.listeners.listeners) == 0) && (r.in == nil) == (r.op == nil) && (r.frequencyMapping != nil ==> mappingOK(r.frequencyMapping) && r.frequencyMapping.centerFrequency == r.centerFrequency) && (r.in != nil ==> runParts(r))
pred runningOK(r) = receiverOK(r) && r.in != nil

func NewReceiver(id, mode, clock) (r)
  props C28, C29, C09
  oncall NewListenerPool: ["listeners get the settings of the receiver"] delegates($factory, Receiver.newListener)
  oncall NewListenerPool: ["the listeners are named after the receiver"] $idPrefix == id
  ensures fresh(r) && receiverOK(r) && r.mode == mode && r.id == id && (clock != nil ==> r.clock == clock)
  ensures ["one listener only to decode"] r.listeners.size == (if mode == "decode" then 1 else 30)
  ensures len(r.reporters) == 0
  ensures ["not started"] r.in == nil && r.op == nil && r.frequencyMapping == nil
  ensures ["the default settings"] r.peakThreshold == 15.0 && r.edgeWidth == 70 && r.signalDebounce == 1 && r.silenceTimeout == 20000000000 && r.attachmentTimeout == 120000000000

func (r *Receiver) newListener(id) (l)
  reveal listenerOK
  props C28, C30
  requires receiverOK(r) && r.sampleRate > 0 && r.blockSize > 0
  ensures fresh(l) && l.id == id && l.peak == nil && listenerOK(l)
  ensures ["the settings reach future listeners"] l.silenceTimeout == r.silenceTimeout && l.attachmentTimeout == r.attachmentTimeout && l.demodulator.signalDebouncer.threshold == r.signalDebounce && l.demodulator.scope == r.scope && l.demodulator.decoder.scope == r.scope
  ensures ["the listener reports to the receiver"] l.reporter == iface(r)

func (r *Receiver) SetScope(scope)
  reveal listenerOK
  props C28
  requires receiverOK(r) && scope != nil
  modifies r.scope, any(cw.SpectralDemodulator.scope), any(cw.Decoder.scope)
  ensures receiverOK(r)
  ensures ["future listeners"] r.scope == scope
  ensures ["present listeners"] forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> r.listeners.listeners[i].demodulator.scope == scope && r.listeners.listeners[i].demodulator.decoder.scope == scope
  invariant boundOK(r.listeners)
  invariant forall k int :: 0 <= k && k < $i ==> r.listeners.listeners[k].demodulator.scope == scope && r.listeners.listeners[k].demodulator.decoder.scope == scope

func (r *Receiver) SetPeakThreshold(threshold)
  props C28
  modifies r.peakThreshold
  ensures r.peakThreshold == threshold

func (r *Receiver) SetEdgeWidth(edgeWidth)
  props C28
  modifies r.edgeWidth
  ensures r.edgeWidth == edgeWidth

func (r *Receiver) SetSilenceTimeout(timeout)
  props C28
  requires receiverOK(r)
  modifies r.silenceTimeout, any(Listener.silenceTimeout)
  ensures receiverOK(r)
  ensures ["future listeners"] r.silenceTimeout == timeout
  ensures ["present listeners"] forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> r.listeners.listeners[i].silenceTimeout == timeout
  invariant forall k int :: 0 <= k && k < $i ==> r.listeners.listeners[k].silenceTimeout == timeout

func (r *Receiver) SetAttachmentTimeout(timeout)
  props C28
  requires receiverOK(r)
  modifies r.attachmentTimeout, any(Listener.attachmentTimeout)
  ensures receiverOK(r)
  ensures ["future listeners"] r.attachmentTimeout == timeout
  ensures ["present listeners"] forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> r.listeners.listeners[i].attachmentTimeout == timeout
  invariant forall k int :: 0 <= k && k < $i ==> r.listeners.listeners[k].attachmentTimeout == timeout

func (r *Receiver) SetSignalDebounce(debounce)
  props C28
  requires receiverOK(r)
  modifies r.signalDebounce, any(dsp.BoolDebouncer.threshold)
  ensures receiverOK(r)
  ensures ["future listeners"] r.signalDebounce == debounce
  ensures ["present listeners"] forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> r.listeners.listeners[i].demodulator.signalDebouncer.threshold == debounce
  invariant forall k int :: 0 <= k && k < $i ==> r.listeners.listeners[k].demodulator.signalDebouncer.threshold == debounce

func (r *Receiver) SetCenterFrequency(frequency)
  props C28
  requires receiverOK(r)
  modifies r.centerFrequency, r.frequencyMapping.centerFrequency, r.frequencyMapping.fromFrequency
  ensures receiverOK(r) && r.centerFrequency == frequency
  ensures ["takes effect with the next data"] r.frequencyMapping != nil ==> r.frequencyMapping.centerFrequency == frequency

func (r *Receiver) CenterFrequency() (f)
  props C28
  ensures f == r.centerFrequency

func (r *Receiver) Start(sampleRate, blockSize)
  props C28, C29, C18
  requires receiverOK(r) && sampleRate > 0 && blockSize > 0
  modifies r.stop, r.stopped, r.in, r.op, r.sampleRate, r.blockSize, r.frequencyMapping, r.peaks
  ensures receiverOK(r) && r.in != nil
  ensures ["a running receiver is not started again"] old(r.in) != nil ==> r.in == old(r.in) && r.sampleRate == old(r.sampleRate) && r.blockSize == old(r.blockSize)
  ensures ["the settings are kept"] old(r.in) == nil ==> runningOK(r) && r.sampleRate == sampleRate && r.blockSize == blockSize && fresh(r.in) && fresh(r.op) && cap(r.in) == 100
  ensures ["a new peaks table"] old(r.in) == nil ==> forall i int :: 0 <= i && i < len(r.peaks.bins) ==> r.peaks.bins[i] == nil

func (r *Receiver) Stop()
  props C28, C09
  requires receiverOK(r)
  modifies r.stop, r.stopped, r.in, r.op, r.listeners.listeners, r.listeners.ids, r.listeners.ids[*], any(Listener.peak), any(TextProcessor.stop), any(TextProcessor.stopped), log
  oncall ListenerPool.Reset: ["the listeners are released after the last data"] awaited(old(r.stopped))
  ensures r.in == nil && r.op == nil
  ensures receiverOK(r)
  ensures poolOK(r.listeners)
  ensures boundOK(r.listeners)
  ensures old(r.in) != nil ==> len(r.listeners.listeners) == 0

func (r *Receiver) newPeakCenteredOnBin(centerBin) (p)
  props C29
  requires runParts(r)
  ensures p.From == max(0, centerBin) && p.To == min(centerBin, r.blockSize - 1)
  ensures p.FromFrequency == b2f(r.frequencyMapping.fromFrequency, r.frequencyMapping.binSize, p.From, dsp.BinFrom) && p.ToFrequency == b2f(r.frequencyMapping.fromFrequency, r.frequencyMapping.binSize, p.To, dsp.BinTo)

func (r *Receiver) newPeakCenteredOnFrequency(frequency) (p)
  props C29
  requires runParts(r)
  ensures p.SignalFrequency == frequency && p.SignalBin == f2b(r.frequencyMapping.fromFrequency, r.frequencyMapping.binSize, r.blockSize, frequency)
  ensures ["the peak covers the bin of the frequency"] p.From == p.SignalBin && p.To == p.SignalBin && 0 <= p.SignalBin && p.SignalBin < r.blockSize

func (r *Receiver) newPeakCenteredOnSignal(peak) (p)
  props C29
  requires runParts(r) && 0 <= peak.SignalBin && peak.SignalBin < r.blockSize
  ensures ["the signal of the peak is kept"] p.SignalFrequency == peak.SignalFrequency && p.SignalValue == peak.SignalValue && p.SignalBin == peak.SignalBin
  ensures ["the peak covers the bin of the signal"] p.From == p.SignalBin && p.To == p.SignalBin

func (r *Receiver) IQData(sampleRate, data)
  props C18
  modifies log
  ensures ["only data of the right size while it is running"] (r.in == nil || r.sampleRate != sampleRate || r.blockSize != len(data) / 2) ==> nlog == old(nlog)
  ensures ["the data is queued"] r.in != nil && r.sampleRate == sampleRate && r.blockSize == len(data) / 2 && old(cansend(r.in)) ==> nlog == old(nlog) + 1 && log[old(nlog)] == @Send___float32(r.in, data)
  ensures ["nothing waits for the receiver"] !old(cansend(r.in)) ==> nlog == old(nlog)

pred reportersOK(r) = forall i int :: 0 <= i && i < len(r.reporters) ==> r.reporters[i] != nil

func (r *Receiver) AddReporter(reporter)
  props C30
  modifies r.reporters, r.reporters[*]
  ensures ["added behind the others"] len(r.reporters) == old(len(r.reporters)) + 1 && r.reporters[len(r.reporters)-1] == reporter && forall i int :: 0 <= i && i < old(len(r.reporters)) ==> r.reporters[i] == old(r.reporters[i])

func (r *Receiver) ListenerActivated(listener, frequency)
  props C30
  requires reportersOK(r)
  modifies log
  ensures ["once to each of the reporters"] nlog == old(nlog) + len(r.reporters) && forall i int :: 0 <= i && i < len(r.reporters) ==> log[old(nlog) + i] == @ListenerActivated(r.reporters[i], listener, frequency)
  invariant nlog == old(nlog) + $i && forall i int :: 0 <= i && i < $i ==> log[old(nlog) + i] == @ListenerActivated(r.reporters[i], listener, frequency)

func (r *Receiver) ListenerDeactivated(listener, frequency)
  props C30
  requires reportersOK(r)
  modifies log
  ensures ["once to each of the reporters"] nlog == old(nlog) + len(r.reporters) && forall i int :: 0 <= i && i < len(r.reporters) ==> log[old(nlog) + i] == @ListenerDeactivated(r.reporters[i], listener, frequency)
  invariant nlog == old(nlog) + $i && forall i int :: 0 <= i && i < $i ==> log[old(nlog) + i] == @ListenerDeactivated(r.reporters[i], listener, frequency)

func (r *Receiver) CallsignDecoded(listener, callsign, frequency, count, weight)
  props C30
  requires reportersOK(r)
  modifies log
  ensures ["once to each of the reporters"] nlog == old(nlog) + len(r.reporters) && forall i int :: 0 <= i && i < len(r.reporters) ==> log[old(nlog) + i] == @RCallsignDecoded(r.reporters[i], listener, callsign, frequency, count, weight)
  invariant nlog == old(nlog) + $i && forall i int :: 0 <= i && i < $i ==> log[old(nlog) + i] == @RCallsignDecoded(r.reporters[i], listener, callsign, frequency, count, weight)

func (r *Receiver) CallsignSpotted(listener, callsign, frequency)
  props C30
  requires reportersOK(r)
  modifies log
  ensures ["once to each of the reporters"] nlog == old(nlog) + len(r.reporters) && forall i int :: 0 <= i && i < len(r.reporters) ==> log[old(nlog) + i] == @RCallsignSpotted(r.reporters[i], listener, callsign, frequency)
  invariant nlog == old(nlog) + $i && forall i int :: 0 <= i && i < $i ==> log[old(nlog) + i] == @RCallsignSpotted(r.reporters[i], listener, callsign, frequency)

func (r *Receiver) SpotTimeout(listener, callsign, frequency)
  props C30
  requires reportersOK(r)
  modifies log
  ensures ["once to each of the reporters"] nlog == old(nlog) + len(r.reporters) && forall i int :: 0 <= i && i < len(r.reporters) ==> log[old(nlog) + i] == @RSpotTimeout(r.reporters[i], listener, callsign, frequency)
  invariant nlog == old(nlog) + $i && forall i int :: 0 <= i && i < $i ==> log[old(nlog) + i] == @RSpotTimeout(r.reporters[i], listener, callsign, frequency)

// ------------------------------------------------------------ text reporter (C30)

instantiate TextReporter[int] ListenerActivated ListenerDeactivated CallsignDecoded CallsignSpotted SpotTimeout
instantiate NewTextReporter[int]

pred khz(f) = fmtverb("%.2f", real(f) / 1000.0)

func NewTextReporter(out) (r)
  props C30
  ensures fresh(r) && (out != nil ==> r.out == out)

func (r *TextReporter) ListenerActivated(listener, frequency)
  props C30
  requires r.out != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @Write(r.out, "listener " + listener + " activated on " + khz(frequency) + "kHz\n")

func (r *TextReporter) ListenerDeactivated(listener, frequency)
  props C30
  requires r.out != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @Write(r.out, "listener " + listener + " deactivated on " + khz(frequency) + "kHz\n")

func (r *TextReporter) CallsignDecoded(listener, callsign, frequency, count, weight)
  props C30
  requires r.out != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @Write(r.out, "callsign " + callsign + " heard " + itoa(count) + " times on " + khz(frequency) + "kHz, weight is " + itoa(weight) + "\n")

func (r *TextReporter) CallsignSpotted(listener, callsign, frequency)
  props C30
  requires r.out != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @Write(r.out, "callsign " + callsign + " spotted on " + khz(frequency) + "kHz\n")

func (r *TextReporter) SpotTimeout(listener, callsign, frequency)
  props C30
  requires r.out != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @Write(r.out, "spot of " + callsign + " on " + khz(frequency) + "kHz timed out\n")

// ------------------------------------------------------------ channel writer (C26)

func NewChannelWriter(out) (w)
  props C26
  ensures fresh(w) && w.out == out && w.activeChannel == ""

func (w *ChannelWriter) Write(bytes) (n, err)
  props C26
  requires w.out != nil
  modifies log
  ensures ["text is always put out"] nlog == old(nlog) + 1 && log[old(nlog)] == @Write(w.out, str(bytes))

func (w *ChannelWriter) write(channel, bytes) (n, err)
  props C26
  helper
  requires w.out != nil
  modifies log
  ensures ["the text of the active channel is put out"] channel == w.activeChannel ==> nlog == old(nlog) + 1 && log[old(nlog)] == @Write(w.out, str(bytes))
  ensures ["the text of other channels is dropped"] channel != w.activeChannel ==> nlog == old(nlog) && n == len(bytes) && err == nil

func (w *ChannelWriter) SetActive(channel)
  props C26
  modifies w.activeChannel
  ensures w.activeChannel == channel

func (w *ChannelWriter) Channel(channel) (f)
  props C26
  returned bytes -> n, err requires w.out != nil : ["the text of the active channel is put out"] channel == w.activeChannel ==> nlog == old(nlog) + 1 && log[old(nlog)] == @Write(w.out, str(bytes))
  returned bytes -> n, err requires w.out != nil : ["the text of other channels is dropped"] channel != w.activeChannel ==> nlog == old(nlog) && n == len(bytes) && err == nil

// ------------------------------------------------------------ the receiver listens (C29)

pred vfoBin(r, offset) = f2b(r.frequencyMapping.fromFrequency, r.frequencyMapping.binSize, r.blockSize, offset + r.centerFrequency)
pred hears(l, bin) = l.peak.From <= bin && bin <= l.peak.To
pred lastListener(p) = p.listeners[len(p.listeners)-1]

func (r *Receiver) SetVFOOffset(offset)
  props C29
  requires receiverOK(r) && r.out.out != nil
  modifies r.vfoOffset, r.out.activeChannel, r.listeners.listeners, r.listeners.listeners[*], r.listeners.ids, r.listeners.ids[*], any(Listener.peak), any(Listener.lastAttach), r.peaks.bins[*], any(peak.state), log
  modifies any(cw.Decoder.ticks), any(cw.Decoder.lastState), any(cw.Decoder.onStart), any(cw.Decoder.offStart), any(cw.Decoder.wpm), any(cw.Decoder.decoding), any(cw.Decoder.currentChar), any(cw.Decoder.currentCharInvalid), any(cw.AdaptiveThreshold.low), any(cw.AdaptiveThreshold.high), any(cw.AdaptiveThreshold.last), any(cw.AdaptiveThreshold.threshold), any(cw.AdaptiveThreshold.preset)
  modifies any(TextProcessor.stop), any(TextProcessor.stopped), any(TextProcessor.lastWrite), any(TextProcessor.lastBestMatch), any(textWindow.window), any(textWindow.currentWindow), any(textWindow.searchPoint), anymap(TextProcessor.collectedCallsigns)
  ensures receiverOK(r)
  ensures r.vfoOffset == offset
  ensures ["nothing happens before the start"] r.in == nil ==> nlog == old(nlog) && r.out.activeChannel == old(r.out.activeChannel) && len(r.listeners.listeners) == old(len(r.listeners.listeners))
  ensures ["a listener is attached at the VFO frequency"] r.in != nil && r.mode == "decode" && r.listeners.size > 0 ==> len(r.listeners.listeners) > 0 && lastListener(r.listeners).peak.SignalFrequency == offset + r.centerFrequency && lastListener(r.listeners).peak.SignalBin == vfoBin(r, offset)
  ensures ["the peak of the listener is active in the table"] r.in != nil && r.mode == "decode" && r.listeners.size > 0 ==> r.peaks.bins[vfoBin(r, offset)] != nil && r.peaks.bins[vfoBin(r, offset)].Peak == lastListener(r.listeners).peak && r.peaks.bins[vfoBin(r, offset)].state == rx.peakActive
  ensures ["its text is put out"] r.in != nil && r.mode == "decode" && r.listeners.size > 0 ==> r.out.activeChannel == lastListener(r.listeners).id
  ensures ["the text of the listener at the VFO is put out"] r.in != nil && r.mode == "strain" && r.out.activeChannel != "" ==> exists i int :: 0 <= i && i < len(r.listeners.listeners) && hears(r.listeners.listeners[i], vfoBin(r, offset)) && r.out.activeChannel == r.listeners.listeners[i].id
  ensures ["no text is put out without a listener at the VFO"] r.in != nil && r.mode == "strain" && (forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> !hears(r.listeners.listeners[i], vfoBin(r, offset))) ==> r.out.activeChannel == ""
  ensures ["a listener at the VFO is found"] r.in != nil && r.mode == "strain" ==> forall i int :: 0 <= i && i < len(r.listeners.listeners) && hears(r.listeners.listeners[i], vfoBin(r, offset)) ==> exists j int :: 0 <= j && j < len(r.listeners.listeners) && r.out.activeChannel == r.listeners.listeners[j].id
  invariant found == (exists k int :: 0 <= k && k < $i && hears(r.listeners.listeners[k], bin))
  invariant !found ==> r.out.activeChannel == ""
  invariant found ==> exists k int :: 0 <= k && k < $i && hears(r.listeners.listeners[k], bin) && r.out.activeChannel == r.listeners.listeners[k].id

// ------------------------------------------------------------ the loop of the receiver (C29)

extern func time.NewTicker(d) (t)
  ensures t != nil && fresh(t) && t.C != nil && fresh(t.C)
extern func time.Ticker.Stop()

// the signals of all listeners and peaks are within the spectrum
pred binsOK(r) = forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> 0 <= r.listeners.listeners[i].peak.SignalBin && r.listeners.listeners[i].peak.SignalBin < r.blockSize
pred tableBins(r) = forall i int :: 0 <= i && i < len(r.peaks.bins) && r.peaks.bins[i] != nil ==> 0 <= r.peaks.bins[i].Peak.SignalBin && r.peaks.bins[i].Peak.SignalBin < r.blockSize

// the operations posted to the channel: each of them is one of the setters above
extern rx.Receiver.op()
  modifies $owner.vfoOffset, $owner.centerFrequency, $owner.peakThreshold, $owner.edgeWidth, $owner.silenceTimeout, $owner.attachmentTimeout, $owner.signalDebounce, $owner.scope, $owner.frequencyMapping.centerFrequency, $owner.frequencyMapping.fromFrequency, $owner.out.activeChannel, $owner.listeners.listeners, $owner.listeners.listeners[*], $owner.listeners.ids, $owner.listeners.ids[*], any(Listener.peak), any(Listener.lastAttach), $owner.peaks.bins[*], any(peak.state), log
  modifies any(Listener.silenceTimeout), any(Listener.attachmentTimeout), any(dsp.BoolDebouncer.threshold), any(cw.SpectralDemodulator.scope), any(cw.Decoder.scope)
  modifies any(cw.Decoder.ticks), any(cw.Decoder.lastState), any(cw.Decoder.onStart), any(cw.Decoder.offStart), any(cw.Decoder.wpm), any(cw.Decoder.decoding), any(cw.Decoder.currentChar), any(cw.Decoder.currentCharInvalid), any(cw.AdaptiveThreshold.low), any(cw.AdaptiveThreshold.high), any(cw.AdaptiveThreshold.last), any(cw.AdaptiveThreshold.threshold), any(cw.AdaptiveThreshold.preset)
  modifies any(TextProcessor.stop), any(TextProcessor.stopped), any(TextProcessor.lastWrite), any(TextProcessor.lastBestMatch), any(textWindow.window), any(textWindow.currentWindow), any(textWindow.searchPoint), anymap(TextProcessor.collectedCallsigns)
  ensures sameListenerBuffer($owner.listeners) || fresh($owner.listeners.listeners)
  ensures old(runningOK($owner)) && old(binsOK($owner)) && old(tableBins($owner)) ==> runningOK($owner) && binsOK($owner) && tableBins($owner)

func scaledValuesForScope(block, scale) (result)
  props C29
  modifies nothing
  ensures ["a value per bin, scaled"] fresh(result) && len(result) == len(block) && forall i int :: 0 <= i && i < len(block) ==> result[i] == block[i] * scale
  invariant len(result) == len(block) && fresh(result) && forall i int :: 0 <= i && i < $i ==> result[i] == block[i] * scale

pred coreOK(r) = r.clock != nil && r.out != nil && r.scope != nil && r.fft != nil && r.listeners != nil && poolOK(r.listeners) && r.in != nil && r.op != nil && runParts(r)
pred gone(l, d) = exists k int :: 0 <= k && k < len(d) && d[k] == l

func (r *Receiver) run()
  props C29
  reveal append
  requires runningOK(r) && binsOK(r) && tableBins(r)
  modifies *
  yields []float32: ["the data has the size of a block (Receiver.IQData)"] $chan == r.in ==> len($value) == 0 || len($value) / 2 == r.blockSize
  oncall FFT.IQToSpectrumAndPSD: ["the data that was received"] $iqSamples == received(r.in, nreceived(r.in) - 1)
  oncall FindNoiseFloor: ["the noise of this block"] $psd == psd && $edgeWidth == r.edgeWidth
  oncall Listener.Listen: ["the value of its signal bin and the noise threshold"] $value == spectrum[$recv.peak.SignalBin] && $noiseFloor == noiseFloor + noiseDeviation
  oncall PeaksTable.Deactivate: ["of a listener whose timeout is exceeded"] r.mode == "strain" && $result(Listener.TimeoutExceeded) && $p == $result(Listener.Peak)
  oncall Listener.Detach: ["whose timeout is exceeded"] r.mode == "strain" && $result(Listener.TimeoutExceeded) && $recv.peak == $result(Listener.Peak) && $calls(PeaksTable.Deactivate) - before($calls(PeaksTable.Deactivate)) == $calls(Listener.Detach) - before($calls(Listener.Detach)) + 1
  oncall ListenerPool.Release: ["exactly the detached listeners"] $recv == r.listeners && forall i int :: 0 <= i && i < len(r.listeners.listeners) ==> (r.listeners.listeners[i].peak == nil) == (exists k int :: 0 <= k && k < len($listeners) && $listeners[k] == r.listeners.listeners[i])
  oncall ListenerPool.Release: ["a listener whose timeout is exceeded is detached"] len(r.listeners.listeners) > 0 && r.mode == "strain" && $result(Listener.TimeoutExceeded) ==> r.listeners.listeners[len(r.listeners.listeners)-1].peak == nil
  oncall ListenerPool.Release: ["every listener listens"] $calls(Listener.Listen) - before($calls(Listener.Listen)) == len(r.listeners.listeners)
  oncall FindPeaks: ["the peaks of the mean spectrum"] $spectrum == cumulation && $cumulationSize == 100 && $threshold == r.peakThreshold + noiseFloor && $frequencyMapping == r.frequencyMapping && r.mode == "strain" && len(r.listeners.listeners) < r.listeners.size && before(cumulationCount) == 99
  oncall PeaksTable.Put: ["each peak, centered on its signal"] $recv == r.peaks && $p.From == $p.SignalBin && $p.To == $p.SignalBin && $p.SignalBin == $result(FindPeaks)[$calls(PeaksTable.Put) - before($calls(PeaksTable.Put))].SignalBin && $p.SignalFrequency == $result(FindPeaks)[$calls(PeaksTable.Put) - before($calls(PeaksTable.Put))].SignalFrequency
  oncall PeaksTable.FindNext: ["all peaks are in the table"] $calls(PeaksTable.Put) - before($calls(PeaksTable.Put)) == len($result(FindPeaks))
  oncall PeaksTable.Activate: ["the next peak"] $recv == r.peaks && $p == $result(PeaksTable.FindNext)
  oncall Listener.Attach: ["the new listener to the next peak"] $recv == $result(ListenerPool.BindNext, 0) && $peak == $result(PeaksTable.FindNext) && $calls(PeaksTable.Activate) - before($calls(PeaksTable.Activate)) == 1
  step ["a new peak gets a listener"] $calls(PeaksTable.FindNext) - before($calls(PeaksTable.FindNext)) == 1 && $result(PeaksTable.FindNext) != nil ==> $calls(Listener.Attach) - before($calls(Listener.Attach)) == 1
  step ["peaks are searched after every 100 blocks"] nreceived(r.in) > before(nreceived(r.in)) && len(received(r.in, nreceived(r.in) - 1)) > 0 && r.mode == "strain" && before(cumulationCount) == 99 ==> $calls(ListenerPool.Available) - before($calls(ListenerPool.Available)) == 1 && ($result(ListenerPool.Available) ==> $calls(PeaksTable.FindNext) - before($calls(PeaksTable.FindNext)) == 1)
  step ["blocks are counted"] cumulationCount == (if nreceived(r.in) > before(nreceived(r.in)) && len(received(r.in, nreceived(r.in) - 1)) > 0 then (before(cumulationCount) + 1) % 100 else before(cumulationCount))
  step ["spectra are summed up"] nreceived(r.in) > before(nreceived(r.in)) && len(received(r.in, nreceived(r.in) - 1)) > 0 && before(len(cumulation)) > 0 ==> forall i int :: 0 <= i && i < len(cumulation) ==> cumulation[i] == (if cumulationCount == 0 then 0.0 else before(cumulation[i]) + spectrum[i])
  invariant in outer: runningOK(r)
  invariant in CheckWriteTimeout: boundOK(r.listeners)
  invariant in CheckWriteTimeout: nreceived(r.in) == before(nreceived(r.in))
  invariant in PeaksTable.Put: runningOK(r)
  invariant in -: runningOK(r)
  invariant in outer: binsOK(r)
  invariant in CheckWriteTimeout: binsOK(r)
  invariant in PeaksTable.Put: binsOK(r)
  invariant in -: binsOK(r)
  invariant tableBins(r)
  invariant in Listen: coreOK(r)
  invariant in CheckWriteTimeout: coreOK(r)
  invariant r.in == old(r.in) && r.blockSize == old(r.blockSize) && r.stopped == old(r.stopped) && r.mode == old(r.mode) && r.listeners == old(r.listeners)
  invariant len(psd) == len(spectrum) && len(cumulation) == len(spectrum) && (len(spectrum) == 0 || len(spectrum) == r.blockSize)
  invariant len(spectrum) > 0 ==> ref(psd) != ref(spectrum) && ref(cumulation) != ref(spectrum) && ref(cumulation) != ref(psd)
  invariant in outer: 0 <= cumulationCount && cumulationCount < 100
  invariant meanOK(noiseFloorMean) && meanOK(noiseDeviationMean)
  invariant len(cumulation) > 0 ==> ref(noiseFloorMean.values) != ref(cumulation) && ref(noiseDeviationMean.values) != ref(cumulation) && ref(noiseFloorMean.values) != ref(spectrum) && ref(noiseDeviationMean.values) != ref(spectrum)
  invariant in Listen: forall k int :: 0 <= k && k < len(r.listeners.listeners) ==> listenerOK(r.listeners.listeners[k])
  invariant in Listen: forall k int :: $i <= k && k < len(r.listeners.listeners) ==> r.listeners.listeners[k].peak != nil
  invariant in Listen: forall k int :: 0 <= k && k < len(r.listeners.listeners) && r.listeners.listeners[k].peak != nil ==> 0 <= r.listeners.listeners[k].peak.SignalBin && r.listeners.listeners[k].peak.SignalBin < r.blockSize
  invariant in Listen: forall k int :: 0 <= k && k < $i && r.listeners.listeners[k].peak == nil ==> gone(r.listeners.listeners[k], detachedListeners)
  invariant in Listen: forall m int :: 0 <= m && m < len(detachedListeners) ==> detachedListeners[m] != nil && detachedListeners[m].peak == nil && exists k int :: 0 <= k && k < $i && r.listeners.listeners[k] == detachedListeners[m]
  invariant ref(detachedListeners) != ref(r.listeners.listeners)
  invariant in Listen: $calls(Listener.Listen) - before($calls(Listener.Listen)) == $i
  invariant in Listen: $i > 0 && r.mode == "strain" && $result(Listener.TimeoutExceeded) ==> r.listeners.listeners[$i-1].peak == nil
  invariant in Listen: $calls(PeaksTable.Deactivate) - before($calls(PeaksTable.Deactivate)) == $calls(Listener.Detach) - before($calls(Listener.Detach))
  invariant in -: before(len(cumulation)) > 0 ==> forall k int :: 0 <= k && k < $i ==> cumulation[k] == before(cumulation[k]) + spectrum[k]
  invariant in -: before(len(cumulation)) > 0 ==> forall k int :: $i <= k && k < len(cumulation) ==> cumulation[k] == before(cumulation[k])
  invariant in PeaksTable.Put: $calls(PeaksTable.Put) - before($calls(PeaksTable.Put)) == $i
  invariant in PeaksTable.Put: forall k int :: 0 <= k && k < len(peaks) ==> 0 <= peaks[k].SignalBin && peaks[k].SignalBin < r.blockSize
