use super::*;
/// What a log that asks for a screenshot is given, and where the requests arrive.
pub fn handler(scope: &Scope) -> (CaptureScreenshotHandler, Receiver<()>) {
  let (capture_screenshot_tx, rx) = channel(1);
  (CaptureScreenshotHandler { capture_screenshot_tx, channel_full: scope.counter("full") }, rx)
}
