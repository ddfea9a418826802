pub async fn stream(api: super::Api) -> bool { api.maintain_active_stream().await.is_ok() }
