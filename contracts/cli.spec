package cli

// ------------------------------------------------------------ host addresses (C25)

fn lastByte(s string, b int) int
extern func strings.LastIndexByte(s, b) (r)
  ensures r == lastByte(s, b) && r >= -1 && r < len(s)
  ensures r == -1 ==> forall k int :: 0 <= k && k < len(s) ==> s[k] != b
  ensures r != -1 ==> s[r] == b && forall k int :: r < k && k < len(s) ==> s[k] != b

// the port as it was resolved
fn resolvedPort(addr *net.TCPAddr) int
fn joinHostPort(host string, port string) string
extern func net.JoinHostPort(host, port) (r)
  ensures r == joinHostPort(host, port)
extern func net.ResolveTCPAddr(network, address) (addr, err)
  ensures err == nil ==> addr != nil && fresh(addr) && addr.Port == resolvedPort(addr)

// a colon and digits, or nothing
pred opaque isPort(s) = s == "" || (s[0] == 58 && forall k int :: 1 <= k && k < len(s) ==> 48 <= s[k] && s[k] <= 57)
fn unbracketed(s string) string = if hasprefix(s, "[") && hassuffix(s, "]") then s[1:len(s)-1] else s
// the last colon divides host and port, if only digits follow
pred withPort(s) = lastByte(s, 58) != -1 && isPort(s[lastByte(s, 58):len(s)])
fn hostPart(s string) string = unbracketed(if withPort(s) then s[0:lastByte(s, 58)] else s)
fn portPart(s string) string = if withPort(s) then s[lastByte(s, 58)+1:len(s)] else ""

func validOptionalPort(port) (r)
  props C25
  pure
  ensures r == isPort(port)
  reveal isPort
  invariant forall k int :: 1 <= k && k < 1 + $i ==> 48 <= port[k] && port[k] <= 57

func splitHostPort(hostport) (host, port)
  props C25
  pure
  ensures ["divided at the last colon, if only digits follow"] host == hostPart(hostport) && port == portPart(hostport)

func ParseTCPAddrArg(arg, defaultHost, defaultPort) (addr, err)
  props C25
  ensures ["the address that was resolved"] addr == $result(net.ResolveTCPAddr, 0) && err == $result(net.ResolveTCPAddr, 1)
  ensures err == nil ==> addr != nil && fresh(addr) && addr.Port == resolvedPort(addr)
  oncall ResolveTCPAddr: ["host and port, or their defaults"] $network == "tcp" && $address == joinHostPort((if hostPart(arg) == "" then defaultHost else hostPart(arg)), (if portPart(arg) == "" then itoa(defaultPort) else portPart(arg)))
