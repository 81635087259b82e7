package scope

// ------------------------------------------------------------ frames (C23)

// the point in time of a timestamp of the protocol
fn pointInTime(t *timestamppb.Timestamp) time.Time
extern func google.golang.org/protobuf/types/known/timestamppb.New(t) (r)
  ensures r != nil && fresh(r) && pointInTime(r) == t
extern func google.golang.org/protobuf/types/known/timestamppb.Timestamp.AsTime() (r)
  ensures r == pointInTime($recv)
extern func sync.Mutex.Lock()
  modifies log
extern func sync.Mutex.Unlock()
  modifies log

// the frame of the protocol has the content of the frame
pred sameTimeFrame(p, f) = f.Frame.Stream == p.StreamId && f.Frame.Timestamp == pointInTime(p.Timestamp) && (forall k string :: member(k, dom(f.Values)) == member(k, dom(p.Values))) && (forall k string :: member(k, dom(p.Values)) ==> f.Values[k] == p.Values[k])
pred sameSpectralFrame(p, f) = f.Frame.Stream == p.StreamId && f.Frame.Timestamp == pointInTime(p.Timestamp) && f.FromFrequency == p.FromFrequency && f.ToFrequency == p.ToFrequency && len(f.Values) == len(p.Values) && (forall i int :: 0 <= i && i < len(p.Values) ==> f.Values[i] == p.Values[i]) && (forall k string :: member(k, dom(f.FrequencyMarkers)) == member(k, dom(p.FrequencyMarkers))) && (forall k string :: member(k, dom(p.FrequencyMarkers)) ==> f.FrequencyMarkers[k] == p.FrequencyMarkers[k]) && (forall k string :: member(k, dom(f.MagnitudeMarkers)) == member(k, dom(p.MagnitudeMarkers))) && (forall k string :: member(k, dom(p.MagnitudeMarkers)) ==> f.MagnitudeMarkers[k] == p.MagnitudeMarkers[k])

func readTimeFrame(timeFrame) (r)
  props C23
  requires timeFrame != nil && timeFrame.Timestamp != nil
  ensures ["with the content that was sent"] r != nil && fresh(r) && sameTimeFrame(timeFrame, r)
  invariant forall k string :: member(k, dom(result.Values)) == $visited(k)
  invariant forall k string :: $visited(k) ==> member(k, dom(timeFrame.Values)) && result.Values[k] == timeFrame.Values[k]

func readSpectralFrame(spectralFrame) (r)
  props C23
  requires spectralFrame != nil && spectralFrame.Timestamp != nil
  ensures ["with the content that was sent"] r != nil && fresh(r) && sameSpectralFrame(spectralFrame, r)
  invariant len(result.Values) == len(spectralFrame.Values) && forall i int :: 0 <= i && i < $i ==> result.Values[i] == spectralFrame.Values[i]
  invariant forall i int :: 0 <= i && i < len(spectralFrame.Values) ==> result.Values[i] == spectralFrame.Values[i]
  invariant forall k string :: member(k, dom(result.FrequencyMarkers)) == $visited(k)
  invariant forall k string :: $visited(k) ==> member(k, dom(spectralFrame.FrequencyMarkers)) && result.FrequencyMarkers[k] == spectralFrame.FrequencyMarkers[k]
  invariant forall k string :: member(k, dom(result.FrequencyMarkers)) == member(k, dom(spectralFrame.FrequencyMarkers))
  invariant forall k string :: member(k, dom(spectralFrame.FrequencyMarkers)) ==> result.FrequencyMarkers[k] == spectralFrame.FrequencyMarkers[k]
  invariant forall k string :: member(k, dom(result.MagnitudeMarkers)) == $visited(k)
  invariant forall k string :: $visited(k) ==> member(k, dom(spectralFrame.MagnitudeMarkers)) && result.MagnitudeMarkers[k] == spectralFrame.MagnitudeMarkers[k]

func (s *ScopeServer) ShowTimeFrame(timeFrame)
  props C23, C24
  requires timeFrame != nil && s.serverLock != nil && (s.server != nil ==> serverOK2(s.server))
  modifies log
  oncall grpcServer.SendFrame: ["the frame as it was shown"] $recv == s.server && is($frame.Frame, *pb.Frame_TimeFrame) && sameTimeFrame(dyn($frame.Frame, *pb.Frame_TimeFrame).TimeFrame, timeFrame)
  ensures ["once, if the scope is active"] $calls(grpcServer.SendFrame) - old($calls(grpcServer.SendFrame)) == (if s.server != nil then 1 else 0)
  invariant forall k string :: member(k, dom(grpcTimeFrame.Values)) == $visited(k)
  invariant forall k string :: $visited(k) ==> member(k, dom(timeFrame.Values)) && grpcTimeFrame.Values[k] == timeFrame.Values[k]

func (s *ScopeServer) ShowSpectralFrame(spectralFrame)
  props C23, C24
  requires spectralFrame != nil && s.serverLock != nil && (s.server != nil ==> serverOK2(s.server))
  modifies log
  oncall grpcServer.SendFrame: ["the frame as it was shown"] $recv == s.server && is($frame.Frame, *pb.Frame_SpectralFrame) && sameSpectralFrame(dyn($frame.Frame, *pb.Frame_SpectralFrame).SpectralFrame, spectralFrame)
  ensures ["once, if the scope is active"] $calls(grpcServer.SendFrame) - old($calls(grpcServer.SendFrame)) == (if s.server != nil then 1 else 0)
  invariant len(grpcSpectralFrame.Values) == len(spectralFrame.Values) && forall i int :: 0 <= i && i < $i ==> grpcSpectralFrame.Values[i] == spectralFrame.Values[i]
  invariant forall i int :: 0 <= i && i < len(spectralFrame.Values) ==> grpcSpectralFrame.Values[i] == spectralFrame.Values[i]
  invariant forall k string :: member(k, dom(grpcSpectralFrame.FrequencyMarkers)) == $visited(k)
  invariant forall k string :: $visited(k) ==> member(k, dom(spectralFrame.FrequencyMarkers)) && grpcSpectralFrame.FrequencyMarkers[k] == spectralFrame.FrequencyMarkers[k]
  invariant forall k string :: member(k, dom(grpcSpectralFrame.FrequencyMarkers)) == member(k, dom(spectralFrame.FrequencyMarkers))
  invariant forall k string :: member(k, dom(spectralFrame.FrequencyMarkers)) ==> grpcSpectralFrame.FrequencyMarkers[k] == spectralFrame.FrequencyMarkers[k]
  invariant forall k string :: member(k, dom(grpcSpectralFrame.MagnitudeMarkers)) == $visited(k)
  invariant forall k string :: $visited(k) ==> member(k, dom(spectralFrame.MagnitudeMarkers)) && grpcSpectralFrame.MagnitudeMarkers[k] == spectralFrame.MagnitudeMarkers[k]

extern scope/pb.Scope_GetFramesClient.Recv() (frame, err)
  ensures err == nil ==> frame != nil && (is(frame.Frame, *pb.Frame_TimeFrame) ==> dyn(frame.Frame, *pb.Frame_TimeFrame) != nil && dyn(frame.Frame, *pb.Frame_TimeFrame).TimeFrame != nil && dyn(frame.Frame, *pb.Frame_TimeFrame).TimeFrame.Timestamp != nil) && (is(frame.Frame, *pb.Frame_SpectralFrame) ==> dyn(frame.Frame, *pb.Frame_SpectralFrame) != nil && dyn(frame.Frame, *pb.Frame_SpectralFrame).SpectralFrame != nil && dyn(frame.Frame, *pb.Frame_SpectralFrame).SpectralFrame.Timestamp != nil)

// ------------------------------------------------------------ streams (C24)

pred serverOK2(s) = s.in != nil && s.register != nil && s.shutdown != nil && s.in != s.register
pred streamsOK(s) = (forall i int :: 0 <= i && i < len(s.out) ==> s.out[i] != nil && !closed(s.out[i]) && allocated(s.out[i])) && (forall i int, j int :: 0 <= i && i < j && j < len(s.out) ==> s.out[i] != s.out[j])
pred gotFrame(c, f) = nsent(c) == old(nsent(c)) + 1 && sent(c, old(nsent(c))) == f && !closed(c)
pred gotNothing(c) = nsent(c) == old(nsent(c))

func (s *grpcServer) addStream(out)
  props C24
  modifies s.out, s.out[*]
  ensures ["registered, with all the others"] len(s.out) == old(len(s.out)) + 1 && s.out[len(s.out)-1] == out && forall i int :: 0 <= i && i < old(len(s.out)) ==> s.out[i] == old(s.out[i])

func (s *grpcServer) removeStream(i)
  props C24
  requires 0 <= i && i < len(s.out)
  modifies s.out, s.out[*]
  ensures ["exactly this one"] len(s.out) == old(len(s.out)) - 1 && forall k int :: 0 <= k && k < len(s.out) ==> s.out[k] == (if k == i then old(s.out[len(s.out)-1]) else old(s.out[k]))

func (s *grpcServer) sendFrameToStreams(frame)
  props C24
  requires streamsOK(s)
  modifies *
  ensures nreceived(s.in) == old(nreceived(s.in)) && nreceived(s.register) == old(nreceived(s.register))
  ensures streamsOK(s) && s.in == old(s.in) && s.register == old(s.register) && s.shutdown == old(s.shutdown)
  ensures ["who can take the frame gets it and stays"] forall k int, c chan *pb.Frame :: 0 <= k && k < old(len(s.out)) && c == old(s.out[k]) && old(cansend(s.out[k])) ==> gotFrame(c, frame) && exists j int :: 0 <= j && j < len(s.out) && s.out[j] == c
  ensures ["who cannot take it is closed and removed"] forall k int, c chan *pb.Frame :: 0 <= k && k < old(len(s.out)) && c == old(s.out[k]) && !old(cansend(s.out[k])) ==> closed(c) && gotNothing(c) && forall j int :: 0 <= j && j < len(s.out) ==> s.out[j] != c
  ensures ["nobody else is registered"] forall j int, c chan *pb.Frame :: 0 <= j && j < len(s.out) && c == s.out[j] ==> exists k int :: 0 <= k && k < old(len(s.out)) && old(s.out[k]) == c && old(cansend(s.out[k]))
  invariant nreceived(s.in) == old(nreceived(s.in)) && nreceived(s.register) == old(nreceived(s.register))
  invariant s.in == old(s.in) && s.register == old(s.register) && s.shutdown == old(s.shutdown)
  invariant streamsOK(s) && i + 1 <= len(s.out) && len(s.out) <= old(len(s.out)) && i >= -1
  invariant forall k int :: 0 <= k && k <= i ==> s.out[k] == old(s.out[k]) && nsent(s.out[k]) == old(nsent(s.out[k])) && cansend(s.out[k]) == old(cansend(s.out[k]))
  invariant forall k int, c chan *pb.Frame :: i < k && k < old(len(s.out)) && c == old(s.out[k]) && old(cansend(s.out[k])) ==> gotFrame(c, frame) && exists j int :: i < j && j < len(s.out) && s.out[j] == c
  invariant forall k int, c chan *pb.Frame :: i < k && k < old(len(s.out)) && c == old(s.out[k]) && !old(cansend(s.out[k])) ==> closed(c) && gotNothing(c)
  invariant forall j int, c chan *pb.Frame :: i < j && j < len(s.out) && c == s.out[j] ==> exists k int :: i < k && k < old(len(s.out)) && old(s.out[k]) == c && old(cansend(s.out[k]))

func (s *grpcServer) run()
  props C24
  requires serverOK2(s) && streamsOK(s)
  modifies *
  yields chan *pb.Frame: ["registered streams are new and open"] $chan == s.register ==> $value != nil && !closed($value) && allocated($value) && forall i int :: 0 <= i && i < len(s.out) ==> s.out[i] != $value
  oncall grpcServer.addStream: ["every client is registered"] $recv == s && $out == received(s.register, nreceived(s.register) - 1)
  oncall grpcServer.sendFrameToStreams: ["every frame is sent"] $recv == s && $frame == received(s.in, nreceived(s.in) - 1)
  step ["every frame is sent once"] $calls(grpcServer.sendFrameToStreams) - before($calls(grpcServer.sendFrameToStreams)) == nreceived(s.in) - before(nreceived(s.in))
  step ["every client is registered once"] $calls(grpcServer.addStream) - before($calls(grpcServer.addStream)) == nreceived(s.register) - before(nreceived(s.register))
  invariant streamsOK(s)
  invariant s.in == old(s.in) && s.register == old(s.register) && s.shutdown == old(s.shutdown)
  invariant forall k int :: 0 <= k && k < $i ==> closed(s.out[k])
  ensures ["all streams are closed"] len(s.out) == 0 && closed(s.shutdown) && forall k int :: 0 <= k && k < before(len(s.out)) ==> closed(before(s.out[k]))

func (s *grpcServer) getFrameStream() (r)
  props C24
  requires serverOK2(s)
  modifies log
  ensures ["a new stream, registered or closed at once"] fresh(r) && cap(r) == s.outBufferSize && ((nsent(s.register) == old(nsent(s.register)) + 1 && sent(s.register, old(nsent(s.register))) == r && !closed(r)) || (closed(r) && closed(s.shutdown)))

func (s *grpcServer) SendFrame(frame)
  props C24, C23
  requires serverOK2(s)
  modifies log
  ensures ["passed on unless the server is shut down"] s.server != nil && !closed(s.shutdown) ==> nsent(s.in) == old(nsent(s.in)) + 1 && sent(s.in, old(nsent(s.in))) == frame

extern scope/pb.Scope_GetFramesServer.Send(frame) (err)

extern scope/pb.Scope_GetFramesServer.Context() (c)
  ensures c != nil

func (s *grpcServer) GetFrames(request, stream) (err)
  props C24
  requires serverOK2(s) && stream != nil
  modifies *
  oncall Scope_GetFramesServer.Send: ["the frames of its own stream, in their order"] $frame == received(frames, nreceived(frames) - 1) && frames == $result(grpcServer.getFrameStream)
  step ["each one once"] $calls(Scope_GetFramesServer.Send) - before($calls(Scope_GetFramesServer.Send)) == nreceived(frames) - before(nreceived(frames))

func (c *Client) GetFrames$1()
  props C23
  requires stream != nil && timeFrames != spectralFrames
  modifies *
  oncall readTimeFrame: ["of the frame that arrived"] is(frame.Frame, *pb.Frame_TimeFrame) && $timeFrame == dyn(frame.Frame, *pb.Frame_TimeFrame).TimeFrame
  oncall readSpectralFrame: ["of the frame that arrived"] is(frame.Frame, *pb.Frame_SpectralFrame) && $spectralFrame == dyn(frame.Frame, *pb.Frame_SpectralFrame).SpectralFrame
  step ["time frames are passed on once"] $calls(readTimeFrame) - before($calls(readTimeFrame)) == nsent(timeFrames) - before(nsent(timeFrames))
  step ["spectral frames are passed on once"] $calls(readSpectralFrame) - before($calls(readSpectralFrame)) == nsent(spectralFrames) - before(nsent(spectralFrames))
