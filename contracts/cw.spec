package cw

instantiate SpectralDemodulator[float32,int] Tick Reset SetScope SetSignalDebounce scopeDemod
instantiate NewSpectralDemodulator[float32,int]

// ------------------------------------------------------------ the Morse code table (C11)

pred none(s) = s.Weight == 0 && !s.KeyDown
pred firstNone(c, n) = (forall k int :: 0 <= k && k < n ==> !none(c[k])) && (n == 8 || none(c[n]))
// after the last symbol there are only empty places
pred charOK(c) = forall k int :: 1 <= k && k < 8 && none(c[k-1]) ==> none(c[k])

// the Morse code as published by the imported package: runes and their symbols, no two runes have the same symbols
fn isMorse(r rune) bool
fn morse(r rune) cwChar
// the inverse of the table
fn decodable(c cwChar) bool
fn decoded(c cwChar) rune

axiom morseUnique(r rune)
  requires isMorse(r)
  ensures decodable(morse(r)) && decoded(morse(r)) == r
  trigger morse(r)
  trigger isMorse(r)

axiom decodedInTable(c cwChar)
  requires decodable(c)
  ensures isMorse(decoded(c)) && morse(decoded(c)) == c && 0 <= decoded(c) && decoded(c) <= 1114111
  trigger decodable(c)

// a symbol sequence with its tail empty
pred symbolsOf(c, s) = forall k int :: 0 <= k && k < 8 ==> c[k] == (if k < len(s) then s[k] else noSymbol)

pred tableOK(t) = t != nil && forall c cwChar :: ((c in t) == decodable(c)) && (decodable(c) ==> t[c] == decoded(c))

func toCWChar(symbols) (r)
  props C11
  ensures symbolsOf(r, symbols)

func (c *cwChar) clear()
  props C11
  modifies c[*]
  ensures forall k int :: 0 <= k && k < 8 ==> none(c[k])
  invariant forall k int :: 0 <= k && k < $i ==> none(c[k])

func (c *cwChar) append(symbol) (ok)
  props C11
  requires charOK(c)
  modifies c[*]
  ensures !none(symbol) ==> charOK(c)
  ensures forall n int :: 0 <= n && n < 8 && old(firstNone(c, n)) ==> ok && c[n] == symbol && forall k int :: 0 <= k && k < 8 && k != n ==> c[k] == old(c[k])
  ensures old(firstNone(c, 8)) ==> !ok && forall k int :: 0 <= k && k < 8 ==> c[k] == old(c[k])
  invariant forall k int :: 0 <= k && k < 8 ==> c[k] == old(c[k])
  invariant forall k int :: 0 <= k && k < $i ==> !none(c[k])

func (c *cwChar) set(symbols)
  props C11
  requires ref(symbols) != ref(c)
  modifies c[*]
  ensures symbolsOf(c, symbols)
  invariant forall k int :: 0 <= k && k < $i ==> c[k] == (if k < len(symbols) then symbols[k] else noSymbol)

func (c *cwChar) len() (r)
  props C11
  ensures 0 <= r && r <= 8 && firstNone(c, r)
  invariant forall k int :: 0 <= k && k < $i ==> !none(c[k])

func (c *cwChar) empty() (r)
  props C11
  ensures r == none(c[0])

// the finite table of the imported package; /verif/replay/cw/assume_table_test.go evaluates it exhaustively
func generateDecodeTable() (t)
  props C11
  assume ["the table cw.Code of github.com/ftl/digimodes is the Morse code: isMorse/morse describe it (no two runes share their symbols, at most 8 symbols each)"] forall r rune :: (r in cw.Code) == isMorse(r)
  assume ["the symbols of a rune are those in cw.Code"] forall r rune, k int :: (r in cw.Code) ==> morse(r)[k] == (if 0 <= k && k < 8 && k < len(cw.Code[r]) then cw.Code[r][k] else noSymbol)
  ensures fresh(t) && tableOK(t)
  invariant forall r rune :: $visited(r) ==> morse(r) in result
  invariant forall c cwChar :: (c in result) ==> decodable(c) && result[c] == decoded(c)

// ------------------------------------------------------------ adaptive thresholds (C12)

fn opaque geo(low float64, high float64) float64 = sqrt(low * high)

pred thrOK(t) = t.preset > 0.0 && t.low > 0.0 && t.high > 0.0 && t.last > 0.0 && t.upperBound == 10.0 && t.threshold == geo(t.low, t.high)
pred thrInitial(t, p) = t.preset == p && t.low == p && t.high == 3.0 * p && t.last == p && t.upperBound == 10.0 && t.threshold == geo(p, 3.0 * p)

func NewAdaptiveThreshold(preset) (t)
  props C12, C13
  ensures fresh(t) && thrInitial(t, preset)

func (t *AdaptiveThreshold) Reset()
  props C12, C13
  modifies t.low, t.high, t.last, t.threshold
  ensures t.low == t.preset && t.high == 3.0 * t.preset && t.last == t.preset && t.threshold == geo(t.low, t.high)

func (t *AdaptiveThreshold) Preset(preset)
  props C12, C13
  modifies t.preset, t.low, t.high, t.last, t.threshold
  ensures t.preset == preset && t.low == preset && t.high == 3.0 * preset && t.last == preset && t.threshold == geo(t.low, t.high)

func (t *AdaptiveThreshold) updateThreshold()
  props C12
  helper
  modifies t.threshold
  ensures t.threshold == geo(t.low, t.high)

pred putLow(low, up, last, d) = if d >= low * up then low else (if last >= 2.0 * d then 0.75 * low + 0.25 * d else (if d >= 2.0 * last then 0.75 * low + 0.25 * last else low))
pred putHigh(low, high, up, last, d) = if d >= low * up then high else (if last >= 2.0 * d then 0.75 * high + 0.25 * last else (if d >= 2.0 * last then 0.75 * high + 0.25 * d else high))
pred putLast(low, up, last, d) = if d >= low * up then last else d

func (t *AdaptiveThreshold) Put(duration, state)
  props C12
  modifies t.low, t.high, t.last, t.threshold
  ensures t.low == old(putLow(t.low, t.upperBound, t.last, duration))
  ensures t.high == old(putHigh(t.low, t.high, t.upperBound, t.last, duration))
  ensures t.last == old(putLast(t.low, t.upperBound, t.last, duration))
  ensures t.threshold == (if old(duration >= t.low * t.upperBound) then old(t.threshold) else geo(t.low, t.high))
  ensures old(thrOK(t)) && duration > 0.0 ==> thrOK(t)

func (t *AdaptiveThreshold) Get() (r)
  props C12
  ensures r == t.threshold

func (t *AdaptiveThreshold) Low() (r)
  props C12
  ensures r == t.low

func (t *AdaptiveThreshold) High() (r)
  props C12
  ensures r == t.high

func (t *AdaptiveThreshold) Ratio() (r)
  props C12
  ensures r == t.high / t.low

lemma geoPos(l float64, h float64)
  requires l > 0.0 && h > 0.0
  ensures geo(l, h) > 0.0
  trigger geo(l, h)

// ------------------------------------------------------------ decoder (C11, C12, C13)

fn charRune(c cwChar, invalid bool) rune = if !invalid && decodable(c) then decoded(c) else unknownCharacter

pred emptyChar(c) = forall k int :: 0 <= k && k < 8 ==> none(c[k])
pred sameChar(d) = forall k int :: 0 <= k && k < 8 ==> d.currentChar[k] == old(d.currentChar[k])
pred decOK(d) = d.onThreshold != nil && d.offThreshold != nil && d.onThreshold != d.offThreshold && thrOK(d.onThreshold) && thrOK(d.offThreshold) && charOK(d.currentChar) && tableOK(d.decodeTable) && d.scope != nil && d.out != nil && d.tickSeconds > 0.0 && d.abortDecodeAfterDits == 10

// what may have happened since the beginning of the call
pred nothingWritten() = nlog == old(nlog)
pred completed(d) = !d.currentCharInvalid && emptyChar(d.currentChar) && (old(none(d.currentChar[0])) ==> nlog == old(nlog)) && (!old(none(d.currentChar[0])) ==> nlog == old(nlog) + 1 && log[old(nlog)] == @Write(d.out, chr(old(charRune(d.currentChar, d.currentCharInvalid)))))
pred completedWord(d) = !d.currentCharInvalid && emptyChar(d.currentChar) && log[nlog-1] == @Write(d.out, chr(32)) && (old(none(d.currentChar[0])) ==> nlog == old(nlog) + 1) && (!old(none(d.currentChar[0])) ==> nlog == old(nlog) + 2 && log[old(nlog)] == @Write(d.out, chr(old(charRune(d.currentChar, d.currentCharInvalid)))))
pred appended(d, s) = (forall n int :: 0 <= n && n < 8 && old(firstNone(d.currentChar, n)) ==> nlog == old(nlog) && d.currentCharInvalid == old(d.currentCharInvalid) && d.currentChar[n] == s && forall k int :: 0 <= k && k < 8 && k != n ==> d.currentChar[k] == old(d.currentChar[k]))
pred appendedFull(d, s) = old(firstNone(d.currentChar, 8)) ==> !d.currentCharInvalid && d.currentChar[0] == s && (forall k int :: 1 <= k && k < 8 ==> none(d.currentChar[k])) && nlog == old(nlog) + 1 && log[old(nlog)] == @Write(d.out, chr(old(charRune(d.currentChar, d.currentCharInvalid))))
pred unchangedChar(d) = sameChar(d) && d.currentCharInvalid == old(d.currentCharInvalid) && nlog == old(nlog)

func (d *Decoder) writeToOutput(r) (err)
  props C11
  helper
  requires d.out != nil
  modifies log
  ensures nlog == old(nlog) + 1 && log[old(nlog)] == @Write(d.out, chr(r))

func (d *Decoder) decodeCurrentChar()
  props C11
  helper
  requires charOK(d.currentChar) && tableOK(d.decodeTable) && d.out != nil
  modifies d.currentChar, d.currentCharInvalid, log
  ensures completed(d)

func (d *Decoder) stop()
  props C11
  requires charOK(d.currentChar) && tableOK(d.decodeTable) && d.out != nil
  modifies d.currentChar, d.currentCharInvalid, log
  ensures ["the last character is completed when the decoder stops"] completed(d)

func (d *Decoder) appendSymbol(s)
  props C11
  helper
  requires charOK(d.currentChar) && tableOK(d.decodeTable) && d.out != nil && !none(s)
  modifies d.currentChar, d.currentCharInvalid, log
  ensures charOK(d.currentChar) && appended(d, s) && appendedFull(d, s)

// ------------------------------------------------------------ edges (C12)

pred thrPut(t, d) = t.low == old(putLow(t.low, t.upperBound, t.last, d)) && t.high == old(putHigh(t.low, t.high, t.upperBound, t.last, d)) && t.last == old(putLast(t.low, t.upperBound, t.last, d)) && t.threshold == (if old(d >= t.low * t.upperBound) then old(t.threshold) else geo(t.low, t.high))
pred thrSame(t) = t.low == old(t.low) && t.high == old(t.high) && t.last == old(t.last) && t.threshold == old(t.threshold)

pred gapEffect(d, t, off) = (off < 2.0 ==> thrSame(t) && unchangedChar(d)) && (off >= 2.0 ==> thrPut(t, off) && (if off >= 4.5 * t.low then completedWord(d) else (if off >= t.threshold then completed(d) else unchangedChar(d))))
pred toneEffect(d, t, on) = (on < 2.0 ==> thrSame(t) && unchangedChar(d) && d.wpm == old(d.wpm)) && (on >= 2.0 ==> thrPut(t, on) && (on >= 2.0 * t.high ==> d.currentCharInvalid && sameChar(d) && nlog == old(nlog) && d.wpm == old(d.wpm)) && (on < 2.0 * t.high && on >= t.threshold ==> appended(d, cw.Da) && appendedFull(d, cw.Da) && d.wpm == (old(d.wpm) + 60.0 / (50.0 * (t.low * d.tickSeconds))) / 2.0) && (on < 2.0 * t.high && on < t.threshold ==> appended(d, cw.Dit) && appendedFull(d, cw.Dit) && d.wpm == old(d.wpm)))

func (d *Decoder) onRisingEdge(offDuration)
  props C11, C12
  helper
  requires decOK(d)
  modifies d.offThreshold.low, d.offThreshold.high, d.offThreshold.last, d.offThreshold.threshold, d.currentChar, d.currentCharInvalid, log
  ensures decOK(d)
  ensures gapEffect(d, d.offThreshold, offDuration)

func (d *Decoder) onFallingEdge(onDuration)
  props C11, C12
  helper
  requires decOK(d)
  modifies d.onThreshold.low, d.onThreshold.high, d.onThreshold.last, d.onThreshold.threshold, d.currentChar, d.currentCharInvalid, d.wpm, log
  ensures decOK(d)
  ensures toneEffect(d, d.onThreshold, onDuration)

func (d *Decoder) ditToWPM(ditTicks) (r)
  props C12
  helper
  requires d.tickSeconds > 0.0 && ditTicks > 0.0
  ensures r == 60.0 / (50.0 * (ditTicks * d.tickSeconds))

func (d *Decoder) Tick(state)
  props C11, C12, C13
  requires decOK(d)
  modifies d.ticks, d.lastState, d.onStart, d.offStart, d.wpm, d.decoding, d.currentChar, d.currentCharInvalid, d.onThreshold.low, d.onThreshold.high, d.onThreshold.last, d.onThreshold.threshold, d.offThreshold.low, d.offThreshold.high, d.offThreshold.last, d.offThreshold.threshold, log
  ensures decOK(d)
  ensures [C13:"ticks are counted"] d.ticks == old(d.ticks) + 1.0 && d.lastState == state
  ensures [C13:"the start of a tone is its rising edge"] d.onStart == (if state && !old(d.lastState) then d.ticks else old(d.onStart))
  ensures [C13:"the start of a gap is its falling edge"] d.offStart == (if !state && old(d.lastState) then d.ticks else old(d.offStart))
  ensures ["a gap ends at the rising edge"] state && !old(d.lastState) ==> gapEffect(d, d.offThreshold, d.ticks - old(d.offStart)) && thrSame(d.onThreshold) && d.wpm == old(d.wpm)
  ensures ["a tone ends at the falling edge"] !state && old(d.lastState) ==> toneEffect(d, d.onThreshold, d.ticks - old(d.onStart)) && thrSame(d.offThreshold)
  ensures ["without an edge the thresholds stay"] state == old(d.lastState) ==> thrSame(d.onThreshold) && thrSame(d.offThreshold) && d.wpm == old(d.wpm)
  ensures [C11, C13:"a long tone or gap completes the character once"] state == old(d.lastState) && old(d.decoding) && d.ticks - (if state then d.onStart else d.offStart) > 10.0 * d.offThreshold.threshold ==> completed(d) && !d.decoding
  ensures [C11, C13:"otherwise nothing happens without an edge"] state == old(d.lastState) && !(old(d.decoding) && d.ticks - (if state then d.onStart else d.offStart) > 10.0 * d.offThreshold.threshold) ==> unchangedChar(d) && d.decoding == old(d.decoding)
  ensures [C13:"an edge starts decoding"] state != old(d.lastState) ==> d.decoding

// ------------------------------------------------------------ the initial state (C13)

fn ditTicks(wpm float64, tickSeconds float64) int = ceil(60.0 / (50.0 * wpm) / tickSeconds)

lemma ditTicksPos(wpm float64, tickSeconds float64)
  requires wpm > 0.0 && tickSeconds > 0.0
  ensures ditTicks(wpm, tickSeconds) > 0
  trigger ditTicks(wpm, tickSeconds)

pred initialExceptSettings(d) = d.ticks == 0.0 && !d.lastState && d.onStart == 0.0 && d.offStart == 0.0 && !d.decoding && emptyChar(d.currentChar) && !d.currentCharInvalid
pred initial(d) = initialExceptSettings(d) && d.wpm == 20.0 && thrInitial(d.onThreshold, ditTicks(20.0, d.tickSeconds)) && thrInitial(d.offThreshold, ditTicks(20.0, d.tickSeconds))

func (d *Decoder) wpmToDit(wpm) (r)
  props C12, C13
  helper
  requires d.tickSeconds > 0.0 && wpm > 0.0
  ensures r == ditTicks(wpm, d.tickSeconds)

func NewDecoder(out, sampleRate, blockSize) (d)
  props C11, C12, C13
  requires sampleRate > 0 && blockSize > 0 && out != nil
  ensures fresh(d) && fresh(d.onThreshold) && fresh(d.offThreshold) && decOK(d)
  ensures ["a new decoder is in the initial state"] initial(d)
  ensures d.out == out && d.tickSeconds == blockSize / real(sampleRate)

func (d *Decoder) Reset()
  props C12, C13
  requires decOK(d)
  modifies d.ticks, d.lastState, d.onStart, d.offStart, d.wpm, d.decoding, d.currentChar, d.currentCharInvalid, d.onThreshold.low, d.onThreshold.high, d.onThreshold.last, d.onThreshold.threshold, d.offThreshold.low, d.offThreshold.high, d.offThreshold.last, d.offThreshold.threshold, d.onThreshold.preset, d.offThreshold.preset
  ensures ["after a reset the decoder is in the initial state"] initial(d)
  ensures decOK(d)

func (d *Decoder) Clear()
  props C13
  modifies d.ticks, d.lastState, d.onStart, d.offStart, d.decoding, d.currentChar, d.currentCharInvalid
  ensures initialExceptSettings(d)

func (d *Decoder) presetWPM(wpm)
  props C12, C13
  requires wpm > 0 && decOK(d)
  modifies d.wpm, d.onThreshold.low, d.onThreshold.high, d.onThreshold.last, d.onThreshold.threshold, d.offThreshold.low, d.offThreshold.high, d.offThreshold.last, d.offThreshold.threshold, d.onThreshold.preset, d.offThreshold.preset
  ensures d.wpm == wpm && thrInitial(d.onThreshold, ditTicks(wpm, d.tickSeconds)) && thrInitial(d.offThreshold, ditTicks(wpm, d.tickSeconds))
  ensures decOK(d)

func (d *Decoder) SetScope(scope)
  panics scope == nil
  modifies d.scope
  ensures d.scope == scope

// ------------------------------------------------------------ spectral demodulator (C27)

pred specOK(d) = d.signalDebouncer != nil && d.decoder != nil && d.scope != nil && decOK(d.decoder)

func NewSpectralDemodulator(out, sampleRate, blockSize) (d)
  props C13, C27
  requires sampleRate > 0 && blockSize > 0 && out != nil
  ensures fresh(d) && fresh(d.decoder) && fresh(d.signalDebouncer) && specOK(d) && initial(d.decoder) && d.decoder.out == out
  ensures d.signalDebouncer.threshold == 1

func (d *SpectralDemodulator) SetSignalDebounce(debounce)
  props C28
  requires d.signalDebouncer != nil
  modifies d.signalDebouncer.threshold
  ensures d.signalDebouncer.threshold == debounce

func (d *SpectralDemodulator) SetScope(scope)
  props C28
  requires d.decoder != nil && scope != nil
  modifies d.scope, d.decoder.scope
  ensures d.scope == scope && d.decoder.scope == scope

func (d *SpectralDemodulator) Reset()
  props C13
  requires specOK(d)
  modifies d.decoder.ticks, d.decoder.lastState, d.decoder.onStart, d.decoder.offStart, d.decoder.wpm, d.decoder.decoding, d.decoder.currentChar, d.decoder.currentCharInvalid, d.decoder.onThreshold.low, d.decoder.onThreshold.high, d.decoder.onThreshold.last, d.decoder.onThreshold.threshold, d.decoder.onThreshold.preset, d.decoder.offThreshold.low, d.decoder.offThreshold.high, d.decoder.offThreshold.last, d.decoder.offThreshold.threshold, d.decoder.offThreshold.preset
  ensures initial(d.decoder) && specOK(d)

func (d *SpectralDemodulator) Tick(value, threshold)
  props C13, C27, C29
  requires specOK(d)
  modifies d.signalDebouncer.effectiveState, d.signalDebouncer.lastRawState, d.signalDebouncer.stateCount, d.decoder.ticks, d.decoder.lastState, d.decoder.onStart, d.decoder.offStart, d.decoder.wpm, d.decoder.decoding, d.decoder.currentChar, d.decoder.currentCharInvalid, d.decoder.onThreshold.low, d.decoder.onThreshold.high, d.decoder.onThreshold.last, d.decoder.onThreshold.threshold, d.decoder.offThreshold.low, d.decoder.offThreshold.high, d.decoder.offThreshold.last, d.decoder.offThreshold.threshold, log
  oncall Debounce: $recv == d.signalDebouncer && $rawState == (value > threshold)
  oncall Tick: $recv == d.decoder && $state == (if d.signalDebouncer.threshold < 2 then value > threshold else d.signalDebouncer.effectiveState)
  ensures ["the decoder ticks once"] d.decoder.ticks == old(d.decoder.ticks) + 1.0
  ensures specOK(d)

// ------------------------------------------------------------ audio demodulator (C27, C28)

pred audioOK(d) = d.filter != nil && goertzelOK(d.filter) && d.debouncer != nil && d.decoder != nil && d.scope != nil && decOK(d.decoder) && d.in != nil && d.op != nil && d.closed != nil && d.close != nil

func NewAudioDemodulator(out, pitch, sampleRate, bufferSize) (d)
  props C27
  requires pitch > 0.0 && sampleRate > 0 && pitch <= sampleRate && sampleRate < 1000000000 && out != nil
  ensures fresh(d) && audioOK(d) && initial(d.decoder) && d.decoder.out == out
  ensures d.filter.pitch == pitch && d.filter.sampleRate == sampleRate && d.decoder.tickSeconds == d.filter.blocksize / real(sampleRate)
  ensures ["the default settings"] d.scale == 1.0 && d.channelCount == 1 && d.maxScale == 12.0 && d.debouncer.threshold == 3 && !closed(d.closed)

func (d *AudioDemodulator) Blocksize() (r)
  props C27
  requires d.filter != nil
  ensures r == d.filter.blocksize

func truncate(value) (r)
  props C27
  helper
  ensures r == (if value > 1.0 then 1.0 else (if value < -1.0 then -1.0 else value))

func (d *AudioDemodulator) SetMaxScale(scale)
  props C27
  modifies d.maxScale
  ensures !closed(d.closed) ==> d.maxScale == scale

func (d *AudioDemodulator) MaxScale() (r)
  props C27
  ensures !closed(d.closed) ==> r == d.maxScale

func (d *AudioDemodulator) SetScale(scale)
  props C27
  modifies d.scale
  ensures !closed(d.closed) ==> d.scale == scale

func (d *AudioDemodulator) SetChannelCount(channelCount)
  props C27
  modifies d.channelCount
  ensures !closed(d.closed) ==> d.channelCount == channelCount

func (d *AudioDemodulator) SetDebounceThreshold(threshold)
  props C27
  requires d.debouncer != nil
  modifies d.debouncer.threshold
  ensures !closed(d.closed) ==> d.debouncer.threshold == threshold

func (d *AudioDemodulator) DebounceThreshold() (r)
  props C27
  requires d.debouncer != nil
  ensures !closed(d.closed) ==> r == d.debouncer.threshold

func (d *AudioDemodulator) SetMagnitudeThreshold(threshold)
  props C27
  requires d.filter != nil
  modifies d.filter.magnitudeThreshold
  ensures !closed(d.closed) ==> d.filter.magnitudeThreshold == threshold

func (d *AudioDemodulator) MagnitudeThreshold() (r)
  props C27
  requires d.filter != nil
  ensures !closed(d.closed) ==> r == d.filter.magnitudeThreshold

func (d *AudioDemodulator) SetScope(scope)
  props C27
  requires d.decoder != nil && scope != nil
  modifies d.scope, d.decoder.scope
  ensures !closed(d.closed) ==> d.scope == scope && d.decoder.scope == scope

func (d *AudioDemodulator) PresetWPM(wpm)
  props C27
  requires wpm > 0 && d.decoder != nil && decOK(d.decoder)
  modifies d.decoder.wpm, d.decoder.onThreshold.low, d.decoder.onThreshold.high, d.decoder.onThreshold.last, d.decoder.onThreshold.threshold, d.decoder.offThreshold.low, d.decoder.offThreshold.high, d.decoder.offThreshold.last, d.decoder.offThreshold.threshold, d.decoder.onThreshold.preset, d.decoder.offThreshold.preset
  ensures decOK(d.decoder)
  ensures !closed(d.closed) ==> d.decoder.wpm == wpm && thrInitial(d.decoder.onThreshold, ditTicks(wpm, d.decoder.tickSeconds)) && thrInitial(d.decoder.offThreshold, ditTicks(wpm, d.decoder.tickSeconds))

func (d *AudioDemodulator) WPM() (r)
  props C27
  requires d.decoder != nil
  ensures !closed(d.closed) ==> r == wrap64(round(d.decoder.wpm))

// ceil(i / c): how many of the indices below i belong to the first channel
fn opaque nth(i int, c int) int = (i + c - 1) / c
fn opaque multiple(i int, c int) bool = i % c == 0

lemma nthStep(i int, c int)
  props C27
  requires i >= 0 && c > 0
  ensures nth(i + 1, c) == nth(i, c) + (if multiple(i, c) then 1 else 0)
  trigger nth(i, c), multiple(i, c)

lemma nthZero(c int)
  props C27
  requires c > 0
  ensures nth(0, c) == 0
  trigger nth(0, c)

lemma nthMono(i int, j int, c int)
  props C27
  requires 0 <= i && i < j && c > 0
  ensures nth(i, c) <= nth(j, c) && (multiple(i, c) ==> nth(i, c) < nth(j, c)) && nth(i, c) >= 0
  trigger nth(i, c), nth(j, c)

func (d *AudioDemodulator) Write(buf) (n, err)
  props C27
  requires d.channelCount > 0
  modifies log
  ensures n == len(buf) && err == nil
  ensures nlog == old(nlog) + nth(len(buf), d.channelCount)
  ensures ["the samples of the first channel in their order"] forall i int :: 0 <= i && i < len(buf) && multiple(i, d.channelCount) ==> log[old(nlog) + nth(i, d.channelCount)] == @Send_float32(d.in, buf[i])
  invariant n == $i && nlog == old(nlog) + nth($i, d.channelCount)
  invariant forall i int :: 0 <= i && i < $i && multiple(i, d.channelCount) ==> log[old(nlog) + nth(i, d.channelCount)] == @Send_float32(d.in, buf[i])

// the operations posted to the channel: each of them is one of the setters and getters above
extern cw.AudioDemodulator.op()
  modifies $owner.maxScale, $owner.scale, $owner.channelCount, $owner.debouncer.threshold, $owner.filter.magnitudeThreshold, $owner.scope, $owner.decoder.scope, $owner.decoder.wpm, $owner.decoder.onThreshold.low, $owner.decoder.onThreshold.high, $owner.decoder.onThreshold.last, $owner.decoder.onThreshold.threshold, $owner.decoder.onThreshold.preset, $owner.decoder.offThreshold.low, $owner.decoder.offThreshold.high, $owner.decoder.offThreshold.last, $owner.decoder.offThreshold.threshold, $owner.decoder.offThreshold.preset
  ensures old(audioOK($owner)) ==> audioOK($owner)

fn opaque clip(v float64) float64 = if v > 1.0 then 1.0 else (if v < -1.0 then -1.0 else v)
fn opaque scaled(v float64, s float64) float64 = if s == 1.0 then v else clip(v * s)

lemma clipIs(v float64)
  props C27
  requires true
  ensures clip(v) == (if v > 1.0 then 1.0 else (if v < -1.0 then -1.0 else v))
  trigger clip(v)

lemma scaledIs(v float64, s float64)
  props C27
  requires true
  ensures scaled(v, s) == (if s == 1.0 then v else clip(v * s))
  trigger scaled(v, s)

lemma scaledZero(s float64)
  props C27
  requires true
  ensures scaled(0.0, s) == 0.0
  trigger scaled(0.0, s)

// the k-th sample of the current block, as it was received
pred raw(d, n, k) = received(d.in, nreceived(d.in) - n + k)

// the number of samples in n blocks
fn opaque used(n float64, blocksize int) float64 = n * blocksize

lemma usedStep(n float64, blocksize int)
  props C27
  requires true
  ensures used(n + 1.0, blocksize) == used(n, blocksize) + blocksize && used(0.0, blocksize) == 0.0
  trigger used(n, blocksize)

func (d *AudioDemodulator) run()
  props C27
  requires audioOK(d) && d.decoder.ticks == 0.0 && nreceived(d.in) == 0
  modifies received(d.in), log, d.maxScale, d.scale, d.channelCount, d.debouncer.threshold, d.debouncer.effectiveState, d.debouncer.lastRawState, d.debouncer.stateCount, d.filter.magnitudeThreshold, d.filter.magnitudeLimit, d.scope, d.decoder.scope, d.decoder.ticks, d.decoder.lastState, d.decoder.onStart, d.decoder.offStart, d.decoder.wpm, d.decoder.decoding, d.decoder.currentChar, d.decoder.currentCharInvalid, d.decoder.onThreshold.low, d.decoder.onThreshold.high, d.decoder.onThreshold.last, d.decoder.onThreshold.threshold, d.decoder.onThreshold.preset, d.decoder.offThreshold.low, d.decoder.offThreshold.high, d.decoder.offThreshold.last, d.decoder.offThreshold.threshold, d.decoder.offThreshold.preset
  invariant audioOK(d)
  invariant blocksize == d.filter.blocksize && 0 <= len(block) && len(block) < blocksize
  invariant ["no sample is lost or used twice"] forall k int :: 0 <= k && k < len(block) ==> block[k] == received(d.in, nreceived(d.in) - len(block) + k)
  invariant ["each full block ticks the decoder once"] used(d.decoder.ticks, blocksize) + len(block) == nreceived(d.in)
  invariant forall k int :: $i <= k && k < len(block) ==> block[k] == raw(d, len(block), k)
  invariant forall k int :: 0 <= k && k < $i ==> scale != 1.0 && block[k] == scaled(raw(d, len(block), k), scale)
  invariant len(block) == blocksize
  oncall Detect: $recv == d.filter && len($buf) == d.filter.blocksize
  oncall Detect: d.scale != 0.0 ==> forall k int :: 0 <= k && k < len($buf) ==> $buf[k] == scaled(raw(d, len($buf), k), d.scale)
  oncall FilterBlock.Max: d.scale == 0.0 ==> len($recv) == blocksize && forall k int :: 0 <= k && k < len($recv) ==> $recv[k] == raw(d, len($recv), k)
  oncall Detect: d.scale == 0.0 && $result(FilterBlock.Max) > 0.0 ==> forall k int :: 0 <= k && k < len($buf) ==> $buf[k] == scaled(raw(d, len($buf), k), min(1.0 / $result(FilterBlock.Max), d.maxScale))
  oncall Debounce: $rawState == $result(Goertzel.Detect, 1)
  oncall Tick: $state == $result(BoolDebouncer.Debounce)
  oncall Debounce: $recv == d.debouncer
  oncall Tick: $recv == d.decoder
  ensures ["the last character is completed"] closed(d.closed)
