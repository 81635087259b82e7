package tci

// ------------------------------------------------------------ the client of the device

extern func github.com/ftl/tci/client.KeepOpen(host, retryInterval, trace, listeners) (c)
  modifies log
  ensures c != nil
extern func github.com/ftl/tci/client.Client.Notify(listener)
  modifies log
extern func github.com/ftl/tci/client.Client.Connected() (r)
extern func github.com/ftl/tci/client.Client.SetIQSampleRate(sampleRate) (err)
  event SetIQSampleRate($recv, sampleRate)
extern func github.com/ftl/tci/client.Client.StartIQ(trx) (err)
  event StartIQ($recv, trx)
extern func github.com/ftl/tci/client.Client.StopIQ(trx) (err)
  event StopIQ($recv, trx)
extern func github.com/ftl/tci/client.Client.AddSpot(callsign, mode, frequency, color, text) (err)
  event AddSpot($recv, callsign, mode, frequency)
extern func github.com/ftl/tci/client.Client.DeleteSpot(callsign) (err)
  event DeleteSpot($recv, callsign)
extern tci.Spotter.Spot(callsign, frequency, msg, timestamp)
  event Spot($recv, callsign, frequency, msg)

pred tciOK(p) = p.client != nil && p.receiver != nil && p.listener != nil && p.listener.process == p && p.scope != nil && p.opAsync != nil && p.close != nil && p.closed != nil && p.close != p.closed

// ------------------------------------------------------------ blocks of IQ data (C18), settings (C28), address (C25)

func New(host, trx, mode, spotter, reporter, traceTCI) (p, err)
  props C18, C25, C30
  modifies *
  oncall ParseTCPAddrArg: [C25:"the defaults of a TCI device"] $arg == host && $defaultHost == "localhost" && $defaultPort == 40001
  oncall KeepOpen: [C25:"a port of zero is replaced by the default"] $host == $result(ParseTCPAddrArg, 0) && $host.Port == (if $result(ParseTCPAddrArg, 0) == nil || resolvedPort($host) == 0 then 40001 else resolvedPort($host))
  ensures err == nil ==> tciOK(p) && receiverOK(p.receiver) && p.trx == trx && p.listener.trx == trx && !p.showListeners && !p.showSpots
  ensures [C30:"reports go to the process and to the reporter"] err == nil ==> is(p.receiver.reporters[0], *Process) && dyn(p.receiver.reporters[0], *Process) == p && len(p.receiver.reporters) == (if reporter != nil then 2 else 1) && (reporter != nil ==> p.receiver.reporters[1] == reporter)

func (p *Process) onConnected(connected)
  props C18, C28
  requires tciOK(p) && receiverOK(p.receiver) && p.receiver.out.out != nil && p.receiver.in == nil
  requires 0 - 1000000 <= p.client.MinIFFrequency && p.client.MaxIFFrequency <= 1000000
  modifies *
  oncall Receiver.SetEdgeWidth: [C18:"the band that is not observed"] edgeOK($edgeWidth, (48000 - (p.client.MaxIFFrequency - p.client.MinIFFrequency)) / 2.0 * (512.0 / 48000.0))
  oncall Receiver.Start: [C18:"started with the sample rate and a quarter of the block"] $recv == p.receiver && $sampleRate == 48000 && $blockSize == 512
  oncall Client.SetIQSampleRate: [C18:"the device uses the same sample rate"] $sampleRate == 48000
  oncall Client.StartIQ: [C18:"the data of this transceiver"] $trx == p.trx
  ensures connected == $called(Client.StartIQ)

func (l *tciListener) IQData(trx, sampleRate, data)
  props C18
  requires l.process != nil && l.process.receiver != nil
  modifies log
  oncall Receiver.IQData: ["the parts in their order"] trx == l.trx && $sampleRate == sampleRate && $recv == l.process.receiver && len($data) == len(data) / 4 && ref($data) == ref(data) && off($data) == off(data) + (len(data) / 4) * ($calls(Receiver.IQData) - old($calls(Receiver.IQData)))
  ensures ["four parts, of the selected transceiver only"] $calls(Receiver.IQData) - old($calls(Receiver.IQData)) == (if trx == l.trx then 4 else 0)
  invariant $calls(Receiver.IQData) == old($calls(Receiver.IQData)) + i && i <= 4

func (l *tciListener) SetDDS(trx, frequency)
  props C28
  requires l.process != nil && l.process.receiver != nil && receiverOK(l.process.receiver)
  modifies *
  oncall Receiver.SetCenterFrequency: [C28:"the center frequency of the selected transceiver"] $recv == l.process.receiver && $frequency == frequency && trx == l.trx
  ensures $called(Receiver.SetCenterFrequency) == (trx == l.trx)

func (l *tciListener) SetIF(trx, vfo, frequency)
  props C28
  requires l.process != nil && l.process.receiver != nil && receiverOK(l.process.receiver) && l.process.receiver.out.out != nil
  modifies *
  oncall Receiver.SetVFOOffset: [C28:"the first VFO of the selected transceiver"] $recv == l.process.receiver && $offset == frequency && trx == l.trx
  ensures $called(Receiver.SetVFOOffset) == (trx == l.trx && vfo != 1)

// ------------------------------------------------------------ reports (C30)

func (p *Process) showDecode(id, frequency)
  props C30
  requires p.client != nil
  modifies log
  ensures ["only if configured to"] !p.showListeners ==> nlog == old(nlog)
  ensures ["marked at its frequency"] p.showListeners ==> nlog == old(nlog) + 2 && log[old(nlog)] == @DeleteSpot(p.client, id) && log[old(nlog)+1] == @AddSpot(p.client, id, "cw", frequency)

func (p *Process) hideDecode(id)
  props C30
  requires p.client != nil
  modifies log
  ensures ["the mark is removed"] nlog == old(nlog) + 1 && log[old(nlog)] == @DeleteSpot(p.client, id)

func (p *Process) showSpot(callsign, frequency)
  props C30
  requires p.client != nil
  modifies log
  ensures ["spotted once, and marked if configured to"] nlog == old(nlog) + (if p.showSpots then 1 else 0) + (if p.spotter != nil then 1 else 0)
  ensures ["marked only if configured to"] p.showSpots ==> log[old(nlog)] == @AddSpot(p.client, ">" + callsign + "<", "cw", frequency)
  ensures ["every callsign is spotted"] p.spotter != nil ==> log[nlog-1] == @Spot(p.spotter, callsign, real(frequency), "cw")

func (p *Process) hideSpot(callsign)
  props C30
  requires p.client != nil
  modifies log
  ensures ["the mark is removed"] nlog == old(nlog) + 1 && log[old(nlog)] == @DeleteSpot(p.client, ">" + callsign + "<")

func (p *Process) ListenerActivated(id, frequency)
  props C30
  requires tciOK(p)
  modifies log
  oncall Process.showDecode: ["the same listener and frequency"] $recv == p && $id == id && $frequency == frequency
  ensures $calls(Process.showDecode) == old($calls(Process.showDecode)) + 1

func (p *Process) ListenerDeactivated(id, frequency)
  props C30
  requires tciOK(p)
  modifies log
  oncall Process.hideDecode: ["the same listener"] $recv == p && $id == id
  ensures $calls(Process.hideDecode) == old($calls(Process.hideDecode)) + 1

func (p *Process) CallsignSpotted(listener, callsign, frequency)
  props C30
  requires tciOK(p)
  modifies log
  oncall Process.showSpot: ["the same callsign and frequency"] $recv == p && $callsign == callsign && $frequency == frequency
  ensures $calls(Process.showSpot) == old($calls(Process.showSpot)) + 1

func (p *Process) SpotTimeout(listener, callsign, frequency)
  props C30
  requires tciOK(p)
  modifies log
  oncall Process.hideSpot: ["the same callsign"] $recv == p && $callsign == callsign
  ensures $calls(Process.hideSpot) == old($calls(Process.hideSpot)) + 1

func (p *Process) SetShow(listeners, spots)
  props C30
  modifies p.showListeners, p.showSpots
  ensures p.showListeners == listeners && p.showSpots == spots

extern tci.Process.opAsync()
  modifies log

func (p *Process) run()
  props C30
  requires tciOK(p) && receiverOK(p.receiver)
  modifies *
  invariant p.client == old(p.client) && p.opAsync == old(p.opAsync) && p.close == old(p.close) && p.closed == old(p.closed) && p.receiver == old(p.receiver) && p.trx == old(p.trx) && receiverOK(p.receiver)
  step ["every operation is executed"] $calls(Process.opAsync) - before($calls(Process.opAsync)) == nreceived(p.opAsync) - before(nreceived(p.opAsync))
  oncall Client.StopIQ: ["the data of this transceiver"] $recv == p.client && $trx == p.trx
  oncall Receiver.Stop: ["no data while the receiver stops"] $recv == p.receiver && $called(Client.StopIQ)
  ensures ["what waits at the end is executed"] $called(Receiver.Stop) && drained(p.opAsync)
