#pragma once
namespace YAML {
namespace NodeType {
enum value { Undefined, Null, Scalar, Sequence, Map };
}
} // namespace YAML
