package dsp

instantiate FFT[float32] IQToSpectrum
instantiate Block[float32] Size Sum Mean Max Subblock
instantiate RollingMean[float32] Put Get Reset
instantiate RollingVariance[float32] Put Get Reset
instantiate RollingHistory[float64] Reset Get Put Sum Max Min SumAt MaxAt MinAt Mean Variance SDev
instantiate NewRollingVariance[float32]
instantiate NewRollingHistory[float64]
instantiate Magnitude[float32]
instantiate FrequencyMapping[int] BinToFrequency FrequencyToBin SetCenterFrequency
instantiate Peak[float32,int] Center CenterFrequency Width WidthHz ContainsBin

// ------------------------------------------------------------ debouncer (C05)

func (d *BoolDebouncer) SetThreshold(threshold)
  props C05
  modifies d.threshold
  ensures d.threshold == threshold

func (d *BoolDebouncer) Threshold() (r)
  props C05
  ensures r == d.threshold

func NewBoolDebouncer(threshold) (d)
  props C05
  ensures fresh(d) && d.threshold == threshold && !d.effectiveState && !d.lastRawState && d.stateCount == 0

// stateCount is the number of successive equal raw states up to now: a change comes through
// exactly when threshold successive raw states were equal.
func (d *BoolDebouncer) Debounce(rawState) (r)
  props C05
  modifies d.effectiveState, d.lastRawState, d.stateCount
  ensures d.threshold < 2 ==> r == rawState
  ensures d.threshold < 2 ==> d.effectiveState == old(d.effectiveState) && d.lastRawState == old(d.lastRawState) && d.stateCount == old(d.stateCount)
  ensures d.threshold >= 2 ==> d.lastRawState == rawState
  ensures d.threshold >= 2 ==> d.stateCount == (if rawState == old(d.lastRawState) then old(d.stateCount) + 1 else 1)
  ensures d.threshold >= 2 ==> r == (if d.stateCount >= d.threshold then rawState else old(d.effectiveState))
  ensures d.threshold >= 2 ==> d.effectiveState == r

// ------------------------------------------------------------ Goertzel filter (C27)

func (b FilterBlock) Max() (r)
  props C27
  ensures r >= 0 && forall i int :: 0 <= i && i < len(b) ==> abs(b[i]) <= r
  ensures (len(b) == 0 && r == 0) || exists i int :: 0 <= i && i < len(b) && abs(b[i]) == r
  invariant max >= 0 && forall i int :: 0 <= i && i < $i ==> abs(b[i]) <= max
  invariant (max == 0) || exists i int :: 0 <= i && i < $i && abs(b[i]) == max

pred goertzelOK(f) = f.blocksize > 0 && f.sampleRate > 0 && f.magnitudeLimitLow == f.blocksize / 2.0

func calculateBlocksize(pitch, sampleRate, blocksizeRatio) (r)
  props C27
  requires pitch > 0.0 && sampleRate > 0 && blocksizeRatio > 0.0 && pitch <= sampleRate && sampleRate < 1000000000
  ensures r == max(1, round(blocksizeRatio * sampleRate / round(sampleRate / pitch))) * round(sampleRate / pitch)
  ensures r > 0

func NewGoertzel(pitch, sampleRate, blocksizeRatio) (f)
  props C27
  requires pitch > 0.0 && sampleRate > 0 && blocksizeRatio > 0.0 && pitch <= sampleRate && sampleRate < 1000000000
  ensures fresh(f) && goertzelOK(f)
  ensures f.pitch == pitch && f.sampleRate == sampleRate && f.magnitudeThreshold == DefaultMagnitudeThreshold && f.magnitudeLimit == 0.0
  ensures f.blocksize == max(1, round(blocksizeRatio * sampleRate / round(sampleRate / pitch))) * round(sampleRate / pitch)
  ensures f.coeff == 2.0 * mathfn(cos, 2.0 * math.Pi * trunc(0.5 + f.blocksize * pitch / sampleRate) / f.blocksize)

func NewDefaultGoertzel(pitch, sampleRate) (f)
  props C27
  requires pitch > 0.0 && sampleRate > 0 && pitch <= sampleRate && sampleRate < 1000000000
  ensures fresh(f) && goertzelOK(f)
  ensures f.pitch == pitch && f.sampleRate == sampleRate && f.magnitudeThreshold == DefaultMagnitudeThreshold && f.magnitudeLimit == 0.0
  ensures f.blocksize == max(1, round(DefaultBlocksizeRatio * sampleRate / round(sampleRate / pitch))) * round(sampleRate / pitch)

func (f *Goertzel) SetMagnitudeThreshold(threshold)
  props C27
  modifies f.magnitudeThreshold
  ensures f.magnitudeThreshold == threshold

func (f *Goertzel) MagnitudeThreshold() (r)
  props C27
  ensures r == f.magnitudeThreshold

func (f *Goertzel) Blocksize() (r)
  props C27
  ensures r == f.blocksize

func (f *Goertzel) Tick() (r)
  props C27
  requires f.sampleRate > 0
  ensures r == wrap64(trunc(f.blocksize / real(f.sampleRate) * 1000000000.0))

// the Goertzel recurrence s(n) = x(n) + c*s(n-1) - s(n-2)
fn gz(b []float32, c float64, n int) float64 = if n <= 0 then 0.0 else c * gz(b, c, n - 1) - gz(b, c, n - 2) + b[n-1]

fn gzmag(b []float32, c float64) float64 = sqrt(gz(b, c, len(b)) * gz(b, c, len(b)) + gz(b, c, len(b) - 1) * gz(b, c, len(b) - 1) - gz(b, c, len(b)) * gz(b, c, len(b) - 1) * c)

func (f *Goertzel) Magnitude(block) (r)
  props C27
  ensures r == gzmag(block, f.coeff)
  invariant q1 == gz(block, f.coeff, $i)
  invariant q2 == gz(block, f.coeff, $i - 1)

fn newLimit(limit float64, low float64, mag float64) float64 = max(if mag > low then limit + (mag - limit) / 6 else limit, low)

func (f *Goertzel) NormalizedMagnitude(block) (r)
  props C27
  requires f.magnitudeLimitLow > 0.0
  modifies f.magnitudeLimit
  ensures f.magnitudeLimit == newLimit(old(f.magnitudeLimit), f.magnitudeLimitLow, gzmag(block, f.coeff))
  ensures r == gzmag(block, f.coeff) / f.magnitudeLimit

func (f *Goertzel) Detect(buf) (mag, state, n, err)
  props C27
  requires goertzelOK(f)
  modifies f.magnitudeLimit
  ensures len(buf) < f.blocksize ==> err != nil && !state && n == 0 && mag == 0.0 && f.magnitudeLimit == old(f.magnitudeLimit)
  ensures len(buf) >= f.blocksize ==> err == nil && n == f.blocksize
  ensures len(buf) >= f.blocksize ==> f.magnitudeLimit == newLimit(old(f.magnitudeLimit), f.magnitudeLimitLow, gzmag(buf[:f.blocksize], f.coeff))
  ensures len(buf) >= f.blocksize ==> mag == gzmag(buf[:f.blocksize], f.coeff) / f.magnitudeLimit
  ensures len(buf) >= f.blocksize ==> state == (mag > f.magnitudeThreshold)

// ------------------------------------------------------------ rolling statistics (C06)

fn sum32(s []float32, n int) float64 = if n <= 0 then 0.0 else sum32(s, n - 1) + s[n-1]
fn sqdev32(s []float32, m float64, n int) float64 = if n <= 0 then 0.0 else sqdev32(s, m, n - 1) + (s[n-1] - m) * (s[n-1] - m)

pred meanOK(v) = len(v.values) > 0 && v.n == len(v.values) && 0 <= v.next && v.next < len(v.values)

func NewRollingMean(n) (v)
  props C06
  requires n > 0
  ensures fresh(v) && fresh(v.values) && meanOK(v) && len(v.values) == n && v.next == 0 && v.mean == 0.0
  ensures forall i int :: 0 <= i && i < n ==> v.values[i] == 0.0

func (v *RollingMean) Put(value) (r)
  props C06
  requires meanOK(v)
  modifies v.values[*], v.sumForMean, v.mean, v.next
  ensures v.values[old(v.next)] == value && v.next == (old(v.next) + 1) % len(v.values)
  ensures forall i int :: 0 <= i && i < len(v.values) && i != old(v.next) ==> v.values[i] == old(v.values[i])
  ensures v.mean == sum32(v.values, len(v.values)) / len(v.values) && r == v.mean
  ensures meanOK(v)
  invariant v.sumForMean == sum32(v.values, $i)
  invariant v.values[old(v.next)] == value
  invariant forall i int :: 0 <= i && i < len(v.values) && i != old(v.next) ==> v.values[i] == old(v.values[i])

func (v *RollingMean) Get() (r)
  props C06
  ensures r == v.mean

func (v *RollingMean) Reset()
  props C06
  requires meanOK(v)
  modifies v.values[*], v.sumForMean, v.mean, v.next
  ensures meanOK(v) && v.next == 0 && v.mean == 0.0
  ensures forall i int :: 0 <= i && i < len(v.values) ==> v.values[i] == 0.0

pred varOK(v) = len(v.values) > 0 && v.n == len(v.values) && 0 <= v.next && v.next < len(v.values)

func NewRollingVariance(n) (v)
  props C06
  requires n > 0
  ensures fresh(v) && fresh(v.values) && varOK(v) && len(v.values) == n && v.next == 0 && v.variance == 0.0
  ensures forall i int :: 0 <= i && i < n ==> v.values[i] == 0.0

func (v *RollingVariance) Put(value) (r)
  props C06
  requires varOK(v)
  modifies v.values[*], v.sumForMean, v.mean, v.next, v.sumForVariance, v.variance
  ensures v.values[old(v.next)] == value && v.next == (old(v.next) + 1) % len(v.values)
  ensures forall i int :: 0 <= i && i < len(v.values) && i != old(v.next) ==> v.values[i] == old(v.values[i])
  ensures v.mean == sum32(v.values, len(v.values)) / len(v.values)
  ensures v.variance == sqdev32(v.values, v.mean, len(v.values)) / len(v.values) && r == v.variance
  ensures varOK(v)
  invariant v.sumForMean == sum32(v.values, $i)
  invariant v.mean == sum32(v.values, len(v.values)) / len(v.values)
  invariant v.sumForVariance == sqdev32(v.values, v.mean, $i)
  invariant v.values[old(v.next)] == value
  invariant forall i int :: 0 <= i && i < len(v.values) && i != old(v.next) ==> v.values[i] == old(v.values[i])

func (v *RollingVariance) Get() (r)
  props C06
  ensures r == v.variance

func (v *RollingVariance) Reset()
  props C06
  requires varOK(v)
  modifies v.values[*], v.sumForMean, v.mean, v.next, v.sumForVariance, v.variance
  ensures varOK(v) && v.next == 0 && v.mean == 0.0 && v.variance == 0.0
  ensures forall i int :: 0 <= i && i < len(v.values) ==> v.values[i] == 0.0

pred histOK(h) = h.length > 0 && len(h.ring) == h.length && 0 <= h.next && h.next < h.length

// the value that was put k calls ago
fn hist(ring []float64, next int, k int) float64 = ring[(next - k + len(ring)) % len(ring)]
fn histSum(ring []float64, next int, n int) float64 = if n <= 0 then 0.0 else histSum(ring, next, n - 1) + hist(ring, next, n)
fn histDev(ring []float64, next int, m float64, n int) float64 = if n <= 0 then 0.0 else histDev(ring, next, m, n - 1) + (hist(ring, next, n) - m) * (hist(ring, next, n) - m)

func NewRollingHistory(length) (h)
  props C06
  requires length > 0
  ensures fresh(h) && histOK(h) && h.length == length && h.next == 0
  ensures forall i int :: 0 <= i && i < length ==> h.ring[i] == 0.0

func (h *RollingHistory) ringIndex(index) (r)
  props C06
  helper
  requires histOK(h)
  requires index >= 0
  panics index > h.length
  ensures r == (h.next - index + h.length) % h.length
  ensures 0 <= r && r < h.length

func (h *RollingHistory) forEach(sliceLength, f)
  inline
  invariant 1 <= i

func (h *RollingHistory) Reset()
  props C06
  requires histOK(h)
  modifies h.ring[*], h.next
  ensures histOK(h) && h.next == 0
  ensures forall i int :: 0 <= i && i < h.length ==> h.ring[i] == 0.0

func (h *RollingHistory) Get(index) (r)
  props C06
  requires histOK(h) && index >= 0
  panics index > h.length
  ensures r == hist(h.ring, h.next, index)

func (h *RollingHistory) Put(value)
  props C06
  requires histOK(h)
  modifies h.ring[*], h.next
  ensures histOK(h) && h.next == (old(h.next) + 1) % h.length
  ensures hist(h.ring, h.next, 1) == value
  ensures forall k int :: 1 <= k && k < h.length ==> hist(h.ring, h.next, k + 1) == old(hist(h.ring, h.next, k))

func (h *RollingHistory) Sum(n) (r)
  props C06
  requires histOK(h) && n >= 0
  panics n > h.length
  ensures r == histSum(h.ring, h.next, n)
  invariant sum == histSum(h.ring, h.next, i - 1)

func (h *RollingHistory) Max(n) (r)
  props C06
  requires histOK(h) && n >= 1
  panics n > h.length
  ensures forall k int :: 1 <= k && k <= n ==> hist(h.ring, h.next, k) <= r
  ensures exists k int :: 1 <= k && k <= n && hist(h.ring, h.next, k) == r
  invariant forall k int :: 1 <= k && k < i ==> hist(h.ring, h.next, k) <= max
  invariant exists k int :: 1 <= k && k <= n && hist(h.ring, h.next, k) == max

func (h *RollingHistory) Min(n) (r)
  props C06
  requires histOK(h) && n >= 1
  panics n > h.length
  ensures forall k int :: 1 <= k && k <= n ==> hist(h.ring, h.next, k) >= r
  ensures exists k int :: 1 <= k && k <= n && hist(h.ring, h.next, k) == r
  invariant forall k int :: 1 <= k && k < i ==> hist(h.ring, h.next, k) >= min
  invariant exists k int :: 1 <= k && k <= n && hist(h.ring, h.next, k) == min

fn histSumAt(ring []float64, next int, ix []int, n int) float64 = if n <= 0 then 0.0 else histSumAt(ring, next, ix, n - 1) + hist(ring, next, ix[n-1])

func (h *RollingHistory) SumAt(indexes) (r)
  props C06
  requires histOK(h) && forall j int :: 0 <= j && j < len(indexes) ==> 0 <= indexes[j] && indexes[j] <= h.length
  ensures r == histSumAt(h.ring, h.next, indexes, len(indexes))
  invariant sum == histSumAt(h.ring, h.next, indexes, $i)

func (h *RollingHistory) MaxAt(indexes) (r)
  props C06
  requires histOK(h) && len(indexes) > 0 && forall j int :: 0 <= j && j < len(indexes) ==> 0 <= indexes[j] && indexes[j] <= h.length
  ensures forall j int :: 0 <= j && j < len(indexes) ==> hist(h.ring, h.next, indexes[j]) <= r
  ensures exists j int :: 0 <= j && j < len(indexes) && hist(h.ring, h.next, indexes[j]) == r
  invariant forall j int :: 0 <= j && j < $i ==> hist(h.ring, h.next, indexes[j]) <= max
  invariant exists j int :: 0 <= j && j < len(indexes) && hist(h.ring, h.next, indexes[j]) == max

func (h *RollingHistory) MinAt(indexes) (r)
  props C06
  requires histOK(h) && len(indexes) > 0 && forall j int :: 0 <= j && j < len(indexes) ==> 0 <= indexes[j] && indexes[j] <= h.length
  ensures forall j int :: 0 <= j && j < len(indexes) ==> hist(h.ring, h.next, indexes[j]) >= r
  ensures exists j int :: 0 <= j && j < len(indexes) && hist(h.ring, h.next, indexes[j]) == r
  invariant forall j int :: 0 <= j && j < $i ==> hist(h.ring, h.next, indexes[j]) >= min
  invariant exists j int :: 0 <= j && j < len(indexes) && hist(h.ring, h.next, indexes[j]) == min

func (h *RollingHistory) Mean(n) (r)
  props C06
  requires histOK(h) && n >= 1
  panics n > h.length
  ensures r == histSum(h.ring, h.next, n) / n

func (h *RollingHistory) Variance(n) (r)
  props C06
  requires histOK(h) && n >= 1
  panics n > h.length
  ensures r == histDev(h.ring, h.next, histSum(h.ring, h.next, n) / n, n) / n
  invariant sum == histDev(h.ring, h.next, histSum(h.ring, h.next, n) / n, i - 1)

func (h *RollingHistory) SDev(n) (r)
  props C06
  requires histOK(h) && n >= 1
  panics n > h.length
  ensures r == sqrt(histDev(h.ring, h.next, histSum(h.ring, h.next, n) / n, n) / n)

// ------------------------------------------------------------ spectrum (C01)

// the discrete Fourier transform, as computed by the imported package
fn dft(x []complex128, k int) complex128
// the discrete Fourier transform of the complex samples given as I, Q, I, Q, ...
fn iqdft(iq []float32, k int) complex128

axiom dftContents(x []complex128, iq []float32, k int)
  requires len(x) == len(iq) / 2 && forall i int :: 0 <= i && i < len(x) ==> re(x[i]) == iq[2*i] && im(x[i]) == iq[2*i+1]
  ensures dft(x, k) == iqdft(iq, k)
  trigger dft(x, k), iqdft(iq, k)

extern func github.com/mjibson/go-dsp/fft.FFT(x) (r)
  ensures fresh(r) && len(r) == len(x)
  ensures forall k int :: 0 <= k && k < len(r) ==> r[k] == dft(x, k)

func NewFFT() (f)
  props C01
  ensures fresh(f) && len(f.samples) == 0

func (f *FFT) setSamplesFromIQ(iqSamples)
  props C01
  helper
  modifies f.samples, f.samples[*]
  ensures len(f.samples) == len(iqSamples) / 2
  ensures forall i int :: 0 <= i && i < len(f.samples) ==> re(f.samples[i]) == iqSamples[2*i] && im(f.samples[i]) == iqSamples[2*i+1]
  invariant forall i int :: 0 <= i && i < $i ==> re(f.samples[i]) == iqSamples[2*i] && im(f.samples[i]) == iqSamples[2*i+1]

// the spectrum's bin for a transformed bin: the center frequency (bin 0) comes to the middle
fn opaque shiftIndex(k int, n int) int = (k + n / 2) % n

lemma shiftIndexInRange(k int, n int)
  props C01
  requires 0 <= k && k < n
  ensures 0 <= shiftIndex(k, n) && shiftIndex(k, n) < n
  ensures shiftIndex(k, n) == (if k + n / 2 < n then k + n / 2 else k + n / 2 - n)
  trigger shiftIndex(k, n)

func binToSpectrumIndex(bin, blockSize) (r)
  props C01
  helper
  requires 0 <= bin && bin < blockSize
  ensures r == shiftIndex(bin, blockSize)
  ensures 0 <= r && r < blockSize

// the power of a transformed value
fn opaque power(z complex128) float64 = re(z) * re(z) + im(z) * im(z)

func PSD(fftValue, blockSize) (r)
  props C01
  ensures r == power(fftValue)
  ensures r >= 0.0

func Magnitude(fftValue, blockSize) (r)
  props C01
  ensures r == sqrt(power(fftValue))

func MagnitudeIndB(fftValue, blockSize) (r)
  props C01
  requires blockSize > 0
  ensures r == 10.0 * log10(20.0 * (power(fftValue)) / (blockSize * blockSize))

func PSDValueIndB(psdValue, blockSize) (r)
  props C01
  requires blockSize > 0
  ensures r == 10.0 * log10(20.0 * psdValue / (blockSize * blockSize))

// bin i of the transform holds the frequencies up from the center frequency for i < N/2, those below
// the center for the others: the spectrum shows them in ascending order of the frequency.
extern func "func(complex128, int) float32" (value, blockSize) (r)
  pure

func (f *FFT) IQToSpectrumAndPSD(spectrum, psd, iqSamples, projection)
  props C01
  requires len(psd) == len(spectrum) && ref(psd) != ref(spectrum) && projection != nil
  panics len(spectrum) != len(iqSamples) / 2
  modifies f.samples, f.samples[*], spectrum[*], psd[*]
  ensures forall k int :: 0 <= k && k < len(spectrum) ==> spectrum[shiftIndex(k, len(spectrum))] == apply(projection, old(iqdft(iqSamples, k)), len(spectrum))
  ensures forall k int :: 0 <= k && k < len(spectrum) ==> psd[shiftIndex(k, len(spectrum))] == power(old(iqdft(iqSamples, k)))
  invariant forall k int :: 0 <= k && k < $i ==> spectrum[shiftIndex(k, len(spectrum))] == apply(projection, old(iqdft(iqSamples, k)), len(spectrum))
  invariant forall k int :: 0 <= k && k < $i ==> psd[shiftIndex(k, len(spectrum))] == power(old(iqdft(iqSamples, k)))

func (f *FFT) IQToSpectrum(spectrum, iqSamples, projection)
  props C01
  requires projection != nil
  panics len(spectrum) != len(iqSamples) / 2
  modifies f.samples, f.samples[*], spectrum[*]
  ensures forall k int :: 0 <= k && k < len(spectrum) ==> spectrum[shiftIndex(k, len(spectrum))] == apply(projection, old(iqdft(iqSamples, k)), len(spectrum))
  invariant forall k int :: 0 <= k && k < $i ==> spectrum[shiftIndex(k, len(spectrum))] == apply(projection, old(iqdft(iqSamples, k)), len(spectrum))

// ------------------------------------------------------------ frequency mapping (C02)

pred mappingOK(m) = m.sampleRate > 0 && m.blockSize > 0 && m.binSize == real(m.sampleRate) / real(m.blockSize) && m.fromFrequency == m.centerFrequency - m.sampleRate / 2

fn opaque b2f(from int, binSize float64, bin int, loc float64) int = from + trunc(bin * binSize + binSize * loc)
fn f2b(from int, binSize float64, blockSize int, f int) int = max(0, min(round((f - from) / binSize), blockSize - 1))

func NewFrequencyMapping(sampleRate, blockSize, centerFrequency) (m)
  props C02
  requires sampleRate > 0 && blockSize > 0
  ensures fresh(m) && mappingOK(m)
  ensures m.sampleRate == sampleRate && m.blockSize == blockSize && m.centerFrequency == centerFrequency

func (m *FrequencyMapping) SetCenterFrequency(frequency)
  props C02
  modifies m.centerFrequency, m.fromFrequency
  ensures m.centerFrequency == frequency && m.fromFrequency == frequency - m.sampleRate / 2

func (m *FrequencyMapping) BinToFrequency(bin, location) (r)
  props C02
  ensures r == b2f(m.fromFrequency, m.binSize, bin, location)

func (m *FrequencyMapping) FrequencyToBin(frequency) (r)
  props C02
  requires mappingOK(m)
  ensures r == f2b(m.fromFrequency, m.binSize, m.blockSize, frequency)
  ensures 0 <= r && r < m.blockSize

lemma binRoundTrip(from int, binSize float64, blockSize int, bin int)
  props C02
  requires binSize >= 2.0 && 0 <= bin && bin < blockSize
  ensures f2b(from, binSize, blockSize, b2f(from, binSize, bin, 0.0)) == bin

lemma binFrequenciesAscend(from int, binSize float64, a int, b int, loc float64)
  props C02
  requires binSize >= 1.0 && a < b && 0 <= a
  requires loc >= -0.5 && loc <= 0.5
  ensures b2f(from, binSize, a, loc) <= b2f(from, binSize, b, loc)

lemma binTiles(from int, binSize float64, bin int)
  props C02
  requires binSize > 0.0 && bin >= 0
  ensures b2f(from, binSize, bin, 0.5) == b2f(from, binSize, bin + 1, -0.5)

lemma centerBin(from int, center int, sampleRate int, blockSize int)
  props C02
  requires sampleRate > 0 && blockSize > 0 && sampleRate % 2 == 0 && blockSize % 2 == 0 && from == center - sampleRate / 2
  ensures b2f(from, real(sampleRate) / real(blockSize), blockSize / 2, 0.0) == center

lemma frequencyInItsBin(from int, binSize float64, blockSize int, f int)
  props C02
  requires binSize >= 2.0 && f >= from && f <= from + binSize * (blockSize - 1) && blockSize > 0
  ensures b2f(from, binSize, f2b(from, binSize, blockSize, f), -0.5) <= f
  ensures f <= b2f(from, binSize, f2b(from, binSize, blockSize, f), 0.5) + 1

// ------------------------------------------------------------ blocks and peaks (C03)

func (b Block) Size() (r)
  props C03
  ensures r == len(b)

func (b Block) Subblock(from, to) (r)
  props C03
  requires 0 <= from && from <= to + 1 && to < len(b)
  ensures len(r) == to - from + 1
  ensures ref(r) == ref(b) && off(r) == off(b) + from

fn sumFT(s []float32, from int, to int) float64 = if to < from then 0.0 else sumFT(s, from, to - 1) + s[to]

func (b Block) Sum(from, to) (r)
  props C06
  requires 0 <= from && to < len(b)
  ensures r == sumFT(b, from, to)
  invariant sum == sumFT(b, from, i - 1)
  invariant i >= from && (if to < from then i == from else i <= to + 1)

func (b Block) Mean(from, to) (r)
  props C06
  requires 0 <= from && from <= to && to < len(b)
  ensures r == sumFT(b, from, to) / (to - from + 1)

func (b Block) Max(from, to) (r, at)
  props C06
  requires 0 <= from && from <= to && to < len(b)
  ensures from <= at && at <= to && r == b[at]
  ensures forall k int :: from <= k && k <= to ==> b[k] <= r
  invariant from <= maxI && maxI <= to && maxValue == b[maxI]
  invariant i >= from && forall k int :: from <= k && k < i ==> b[k] <= maxValue

func (p Peak) Center() (r)
  props C03
  requires p.From <= p.To
  ensures r == p.From + (p.To - p.From) / 2 && p.From <= r && r <= p.To

func (p Peak) CenterFrequency() (r)
  props C03
  ensures r == p.FromFrequency + (p.ToFrequency - p.FromFrequency) / 2

func (p Peak) Width() (r)
  props C03
  ensures r == p.To - p.From + 1

func (p Peak) WidthHz() (r)
  props C03
  ensures r == p.ToFrequency - p.FromFrequency

func (p Peak) ContainsBin(bin) (r)
  props C03
  ensures r == (p.From <= bin && bin <= p.To)

// quadratic interpolation over a local maximum and its neighbours
fn opaque interpolation(y1 float64, y2 float64, y3 float64) float64 = (y3 - y1) / (2.0 * (2.0 * y2 - y1 - y3))
fn opaque correction(s []float32, bin int) float64 = if bin <= 0 || bin >= len(s) - 1 then 0.0 else (if abs(interpolation(s[bin-1], s[bin], s[bin+1])) <= 0.5 then interpolation(s[bin-1], s[bin], s[bin+1]) else 0.0)

func PeakCenterCorrection(bin, spectrum) (r)
  props C03
  ensures r == correction(spectrum, bin)
  ensures -0.5 <= r && r <= 0.5

// where there is a real maximum the interpolation is within the bin
lemma interpolationInBin(y1 float64, y2 float64, y3 float64)
  props C03
  requires y2 >= y1 && y2 >= y3 && (y2 > y1 || y2 > y3)
  ensures abs(interpolation(y1, y2, y3)) <= 0.5

func SignalFrequency(bin, spectrum, frequencyMapping) (r)
  props C03
  requires frequencyMapping != nil
  ensures r == b2f(frequencyMapping.fromFrequency, frequencyMapping.binSize, bin, correction(spectrum, bin))

pred above(s, k, n, thr) = s[k] / n > thr

pred peakRun(p, s, n, thr) = 0 <= p.From && p.From <= p.To && p.To < len(s) && (forall k int :: p.From <= k && k <= p.To ==> above(s, k, n, thr)) && (p.From == 0 || !above(s, p.From - 1, n, thr))
pred peakSignal(p, to, s, n) = p.From <= p.SignalBin && p.SignalBin <= to && p.SignalValue == s[p.SignalBin] / n && (forall k int :: p.From <= k && k <= to ==> s[k] / n <= p.SignalValue) && (forall k int :: p.From <= k && k < p.SignalBin ==> s[k] / n < p.SignalValue)
pred peakFreqs(p, s, m) = p.FromFrequency == b2f(m.fromFrequency, m.binSize, p.From, -0.5) && p.ToFrequency == b2f(m.fromFrequency, m.binSize, p.To, 0.5) && p.SignalFrequency == b2f(m.fromFrequency, m.binSize, p.SignalBin, correction(s, p.SignalBin))

func FindPeaks(peaks, spectrum, cumulationSize, threshold, frequencyMapping) (r)
  props C03
  requires cumulationSize > 0 && frequencyMapping != nil
  modifies peaks[*]
  ensures forall j int :: 0 <= j && j < len(r) ==> peakRun(r[j], spectrum, cumulationSize, threshold) && (r[j].To == len(spectrum) - 1 || !above(spectrum, r[j].To + 1, cumulationSize, threshold))
  ensures forall j int :: 0 <= j && j < len(r) ==> peakSignal(r[j], r[j].To, spectrum, cumulationSize)
  ensures forall j int :: 0 <= j && j < len(r) ==> peakFreqs(r[j], spectrum, frequencyMapping)
  ensures forall j int :: 0 < j && j < len(r) ==> r[j-1].To < r[j].From
  ensures len(r) == 0 ==> forall k int :: 0 <= k && k < len(spectrum) ==> !above(spectrum, k, cumulationSize, threshold)
  ensures len(r) > 0 ==> forall k int :: 0 <= k && k < len(spectrum) && (k < r[0].From || k > r[len(r)-1].To) ==> !above(spectrum, k, cumulationSize, threshold)
  ensures forall j int, k int :: 0 < j && j < len(r) && r[j-1].To < k && k < r[j].From ==> !above(spectrum, k, cumulationSize, threshold)
  invariant forall j int :: 0 <= j && j < len(peaks) ==> peakRun(peaks[j], spectrum, cumulationSize, threshold) && peaks[j].To < $i && !above(spectrum, peaks[j].To + 1, cumulationSize, threshold)
  invariant forall j int :: 0 <= j && j < len(peaks) ==> peakSignal(peaks[j], peaks[j].To, spectrum, cumulationSize)
  invariant forall j int :: 0 <= j && j < len(peaks) ==> peakFreqs(peaks[j], spectrum, frequencyMapping)
  invariant forall j int :: 0 < j && j < len(peaks) ==> peaks[j-1].To < peaks[j].From
  invariant currentPeak != nil ==> 0 <= currentPeak.From && currentPeak.From < $i && (currentPeak.From == 0 || !above(spectrum, currentPeak.From - 1, cumulationSize, threshold))
  invariant currentPeak != nil ==> forall k int :: currentPeak.From <= k && k < $i ==> above(spectrum, k, cumulationSize, threshold)
  invariant currentPeak != nil ==> peakSignal(currentPeak, $i - 1, spectrum, cumulationSize)
  invariant currentPeak != nil ==> forall j int :: 0 <= j && j < len(peaks) ==> peaks[j].To < currentPeak.From
  invariant currentPeak == nil ==> $i == 0 || !above(spectrum, $i - 1, cumulationSize, threshold)
  invariant len(peaks) == 0 ==> forall k int :: 0 <= k && k < $i && (currentPeak == nil || k < currentPeak.From) ==> !above(spectrum, k, cumulationSize, threshold)
  invariant len(peaks) > 0 ==> forall k int :: 0 <= k && k < $i && (currentPeak == nil || k < currentPeak.From) && (k < peaks[0].From || k > peaks[len(peaks)-1].To) ==> !above(spectrum, k, cumulationSize, threshold)
  invariant forall j int, k int :: 0 < j && j < len(peaks) && peaks[j-1].To < k && k < peaks[j].From ==> !above(spectrum, k, cumulationSize, threshold)

// ------------------------------------------------------------ noise floor (C04)

fn winSum(s []float32, from int, n int) float64 = if n <= 0 then 0.0 else winSum(s, from, n - 1) + s[from+n-1]
fn opaque winMean(s []float32, from int, w int) float64 = winSum(s, from, w) / w
fn winDev(s []float32, from int, m float64, n int) float64 = if n <= 0 then 0.0 else winDev(s, from, m, n - 1) + (s[from+n-1] - m) * (s[from+n-1] - m)
// the start of window j
fn winStart(e int, w int, j int) int = if j <= 0 then e else winStart(e, w, j - 1) + w

fn opaque edge(n int, width int) int = max(0, min(width, (n - 1) / 2))
fn opaque winSize(n int, e int) int = max(1, (n - 2 * e) / 10)

pred inWindow(n, width, j) = j >= 0 && winStart(edge(n, width), winSize(n, edge(n, width)), j) + winSize(n, edge(n, width)) <= n - edge(n, width)
fn wmean(s []float32, width int, j int) float64 = winMean(s, winStart(edge(len(s), width), winSize(len(s), edge(len(s), width)), j), winSize(len(s), edge(len(s), width)))

lemma winMeanIs(s []float32, from int, w int)
  props C04
  requires w >= 1
  ensures winMean(s, from, w) == winSum(s, from, w) / w
  trigger winMean(s, from, w)

lemma winStartUp(e int, w int, j int)
  props C04
  requires w >= 1 && j >= 0
  ensures winStart(e, w, j) >= e + j
  induction j
  trigger winStart(e, w, j)

lemma winStartMono(e int, w int, i int, j int)
  props C04
  requires w >= 1 && 0 <= i && i <= j
  ensures winStart(e, w, i) <= winStart(e, w, j)
  induction j
  trigger winStart(e, w, i), winStart(e, w, j)

func FindNoiseFloor(psd, edgeWidth) (floor, variance)
  props C04
  ensures len(psd) == 0 ==> floor == 0.0 && variance == 0.0
  ensures forall j int :: inWindow(len(psd), edgeWidth, j) ==> floor <= wmean(psd, edgeWidth, j)
  ensures len(psd) > 0 ==> exists j int :: inWindow(len(psd), edgeWidth, j) && floor == wmean(psd, edgeWidth, j) && variance == winDev(psd, winStart(edge(len(psd), edgeWidth), winSize(len(psd), edge(len(psd), edgeWidth)), j), floor, winSize(len(psd), edge(len(psd), edgeWidth))) / winSize(len(psd), edge(len(psd), edgeWidth))
  invariant from == winStart(edgeWidth, windowSize, $n)
  invariant forall j int :: 0 <= j && j < $n ==> minMean <= winMean(psd, winStart(edgeWidth, windowSize, j), windowSize)
  invariant $n > 0 ==> exists j int :: 0 <= j && j < $n && minFrom == winStart(edgeWidth, windowSize, j) && minMean == winMean(psd, winStart(edgeWidth, windowSize, j), windowSize)
  invariant $n == 0 ==> minFrom == -1
  invariant $n > 0 ==> minFrom >= edgeWidth && minFrom + windowSize <= len(psd) - edgeWidth
  invariant sum == winSum(psd, from, $n)
  invariant i == from + $n
  invariant sum == winDev(psd, minFrom, minMean, $n)
  invariant i == minFrom + $n
