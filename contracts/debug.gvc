package debug
import log "log"

event logout(l *log.Logger, text string) silent

spec func label(level int) string = ite(level == 1, "NET: ", ite(level == 2, "ERROR: ", ite(level == 3, "DEBUG: ", ite(level == 4, "VERBOSE: ", ""))))
spec func shown(debug int, level int, err error) bool = err != nil && 0 <= level && level <= 4 && level <= debug

contract debug.Log
  func debug.(*Logger).Log(l, level, err)
  tags C23
  safety C27
  requires l != nil && l.Instance != nil
  let SHOW = old(shown(l.Debug, level, err))
  ensures [C23] an admitted message is written once to the log: SHOW ==> calls(logout) == 1 && arg(logout, l) == old(l.Instance)
  ensures [C23] it carries the label of its level: SHOW ==> arg(logout, text) == label(level) + sprintf("%v", err)
  ensures [C23] any other message is not written: !SHOW ==> calls(logout) == 0
  cover SHOW
  cover level == 3 && SHOW
  cover !SHOW && err != nil

contract debug.NewLogger
  func debug.NewLogger(debugLevel, name, output) results (l, err)
  tags C23
  modular
  safety C27
  modifies event(truncated), event(openfile)
  allocates l
  ensures [C23] a logger with an unsupported level is never created: debugLevel > 3 ==> l == nil && err != nil
  ensures [C23] a logger that is returned is usable and has the configured level: err == nil ==> l != nil && l.Debug == debugLevel && l.Instance != nil
  ensures [C23] the standard outputs are always available: debugLevel <= 3 && (output == "stdout" || output == "stderr") ==> err == nil
  cover err == nil
  cover output != "stdout" && err == nil

// ---- what the other packages rely on: logging changes nothing they can observe

contract debug.Log.call
  func debug.(*Logger).Log(l, level, err)
  tags C23
  modular
  safety C27
  requires l != nil && l.Instance != nil
