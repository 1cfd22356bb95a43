"""what the command line reads from a file of raw bytes"""


def parse_binary(data):
    """eight bits for every byte, most significant first"""
    out = []
    for b in data:
        out.extend([b // 128 % 2, b // 64 % 2, b // 32 % 2, b // 16 % 2, b // 8 % 2, b // 4 % 2, b // 2 % 2, b % 2])
    return out
