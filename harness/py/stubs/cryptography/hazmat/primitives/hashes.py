class SHA256:
    name = "sha256"
